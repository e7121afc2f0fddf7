"""Loops of the abstract interpreter: one bound index per loop, closed forms for
induction variables, `sum` terms for reductions, havoc for everything else."""
from poly import P, ATOMS, atom_id, atom_free
import sym
from sym import (Vec, Ptr, Tup, Obj, Alias, Opq, C, Loop, Flow, ZERO, ONE, to_p, to_c, c_not, c_and, c_or, c_subst, mk_sum, same,
                 ite, mk_ite, c_free)


def _targets(ex, n, out):
    """env keys of the local variables assigned somewhere below n"""
    import prog
    for x in prog.nodes(n, 'asg', 'un', 'call'):
        t = None
        if x['k'] == 'asg':
            t = x['a']
        elif x['k'] == 'un' and x['op'] in ('++', '--'):
            t = x['e']
        elif x['k'] == 'call':
            if x.get('obj') is not None and not x.get('repo'):
                nm = (x.get('fn') or '').split('::')[-1]
                if nm in ('push_back', 'emplace_back', 'operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                    t = x['obj']
        while t is not None and t['k'] in ('cast',):
            t = t['e']
        if t is None or t['k'] != 'ref' or 'id' not in t:
            continue
        key = ex.vk(t['id'])
        v = ex.env.get(key)
        seen = 0
        while isinstance(v, Alias) and v.lv[0] == 'var' and seen < 8:
            key = v.lv[1]
            v = ex.env.get(key)
            seen += 1
        if v is None or isinstance(v, Alias):
            continue
        out.add(key)


def _phi(ex, v, nm):
    """symbolic value of a loop-carried variable at the start of an iteration"""
    ex.uid += 1
    a = P.a(('phi', nm, ex.uid))
    if isinstance(v, P):
        return a, a
    if isinstance(v, C):
        return a, a
    if isinstance(v, Ptr) and isinstance(v.off, P):
        return Ptr(v.base, a, v.ext), a
    if isinstance(v, Vec):
        return Vec(v.base, a, v.et), a
    return Opq('loop-carried'), None


def identity(ex, v, d=0):
    """which object a pointer designates, as an expression"""
    if isinstance(v, sym.Alias):
        v = ex.val(v)
    if isinstance(v, Ptr) and isinstance(v.off, P):
        return P.a(('argptr', v.base, v.off))
    if isinstance(v, sym.Opq) and v.alts and d < 6:
        a, b = identity(ex, v.alts[1], d + 1), identity(ex, v.alts[2], d + 1)
        return sym.mk_ite(v.alts[0], a, b) if a is not None and b is not None else None
    return None


def _num(v, like):
    """numeric component of a value (for comparison with its phi)"""
    if isinstance(like, (P, C)):
        return to_p(v) if isinstance(v, (P, C)) else None
    if isinstance(like, Ptr):
        if isinstance(v, Ptr) and v.base == like.base and isinstance(v.off, P):
            return v.off
        return None
    if isinstance(like, Vec):
        if isinstance(v, Vec) and v.base == like.base:
            return v.size if v.size is not None else P.a(('size', v.base))
        return None
    return None


def _wrap(p, like):
    if isinstance(like, C):
        c = to_c(p)
        return C(c) if c is not None else p
    if isinstance(like, Ptr):
        return Ptr(like.base, p, None)
    if isinstance(like, Vec):
        return Vec(like.base, p, like.et)
    return p


def _cell_get(ex, cell):
    if cell[0] == 'env':
        return ex.env.get(cell[1])
    o = cell[1]
    return o.fields.get(cell[2]) if isinstance(o, Obj) else o.v[cell[2]]


def _cell_set(ex, cell, v):
    if cell[0] == 'env':
        ex.env[cell[1]] = v
    elif isinstance(cell[1], Obj):
        cell[1].fields[cell[2]] = v
    else:
        cell[1].v[cell[2]] = v


def _cellname(cell):
    return str(cell[1][-1] if cell[0] == 'env' and isinstance(cell[1], tuple) else cell[2] if cell[0] != 'env' else cell[1])


def _diff(p, phi):
    """p == phi + d  ->  d ; through one level of ite"""
    pid = next(iter(phi.atoms()))
    d = p - phi
    if pid not in d.free():
        return d
    a = p.single_atom()
    if a and a[0] == 'ite':
        x, y = _diff(a[2], phi), _diff(a[3], phi)
        if x is not None and y is not None and pid not in c_free(a[1]):
            return mk_ite(a[1], x, y)
    # p = phi-free part + ite(...)
    if len(p.t) > 1:
        for m, c in p.t.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'ite':
                rest = P({k: v for k, v in p.t.items() if k != m})
                if pid in rest.free():
                    continue
                x = _diff(P({m: c}), phi)
                if x is not None:
                    return rest + x
    return None


def _to_sum(loop, d):
    """sum of d over a loop, turning one-armed ite into a loop condition"""
    res = P()
    lid, lo, hi, cond = loop
    for m, c in d.t.items():
        term = P({m: c})
        ites = [a for a, q in m if q == 1 and ATOMS[a][0] == 'ite' and (ATOMS[a][2].is_zero() or ATOMS[a][3].is_zero())]
        if ites:
            a = ites[0]
            _, cc, x, y = ATOMS[a]
            rest = P({tuple(z for z in m if z[0] != a): c})
            if y.is_zero():
                res = res + _to_sum((lid, lo, hi, c_and(cond, cc)), rest * x)
            else:
                res = res + _to_sum((lid, lo, hi, c_and(cond, c_not(cc))), rest * y)
        else:
            res = res + mk_sum((lid, lo, hi, cond), term)
    return res


class State:
    done = need = frozenset()

    def values(self):
        yield from self.env.values()
        for _, f in self.objs.values():
            yield from (f.values() if isinstance(f, dict) else f)
        yield from self.pc

    def ids(self):
        if self._ids is None:
            self._ids = {id(x) for x in self.values()}
        return self._ids


def _save(ex):
    s = State()
    s.env = dict(ex.env)
    s.objs = ex.obj_snapshot()
    s.neff = len(ex.eff)
    s.nop = len(ex.opaque)
    s.nr = len(ex.rets) if ex.rets is not None else 0
    s.pc = list(ex.pc)
    s.npc = len(ex.pc)
    s._ids = None
    return s


def _restore(ex, s):
    ex.env = dict(s.env)
    for i, (o, f) in s.objs.items():
        if isinstance(o, Obj):
            o.fields.clear()
            o.fields.update(f)
        else:
            o.v[:] = list(f)
    del ex.eff[s.neff:]
    del ex.opaque[s.nop:]
    if ex.rets is not None:
        del ex.rets[s.nr:]


def _changed(ex, s, skip):
    """cells that existed before and have a different value now"""
    out = []
    for k, v in s.env.items():
        w = ex.env.get(k)
        if ('env', k) in skip or w is v:
            continue
        if isinstance(k, tuple) and k and k[0] in ('objcache',):
            continue
        if w is None or same(v, w):
            continue
        if isinstance(v, Vec) and isinstance(w, Vec) and v.base == w.base and ex.size_of(v) == ex.size_of(w):
            continue
        if isinstance(v, Vec) and isinstance(w, Vec) and v.base != w.base:
            pass
        out.append(('env', k))
    for i, (o, f) in s.objs.items():
        if isinstance(o, Obj):
            for k, v in f.items():
                w = o.fields.get(k)
                if w is v or w is None or same(v, w) or ('fld', i, k) in skip:
                    continue
                if isinstance(v, Vec) and isinstance(w, Vec) and v.base == w.base and ex.size_of(v) == ex.size_of(w):
                    continue
                out.append(('fld', o, k))
        else:
            for k, v in enumerate(f):
                if k < len(o.v) and not (o.v[k] is v or same(o.v[k], v)) and ('fld', i, k) not in skip:
                    out.append(('tup', o, k))
    return out


def _skipkey(c):
    return c if c[0] == 'env' else ('fld', id(c[1]), c[2])


UNROLL = 3


def _small(p):
    c = p.const()
    return c if c is not None and c == int(c) else None


def general(ex, n, cond, body, inc, astnodes, name=None, post_test=False, kind='for', extra=()):
    """Run a loop.  cond() -> condition or None, body() -> Flow, inc() -> None."""
    keys = set()
    for a in astnodes:
        if a is not None:
            _targets(ex, a, keys)
    cells = [('env', k) for k in sorted(keys, key=lambda k: (str(k[1:]) if isinstance(k, tuple) else str(k))) if k in ex.env]
    cells += [c for c in extra if c not in cells]
    st = _save(ex)
    pend0 = ex.pendcap
    caps = []
    st.done, st.need = set(), set()
    attempt = -1
    while attempt < 3:
        attempt += 1
        if attempt or st.need:
            _restore(ex, st)
        if st.need:
            # values read before the loop from memory that the loop changes
            for b in sorted(st.need, key=repr):
                u = ex.age(b, None)
                if u is not None:
                    caps.append((b, u, len(ex.loops)))
            done = st.done | st.need
            st = _save(ex)
            st.done, st.need = done, set()
            attempt -= 1
        ex.pendcap = list(pend0) + caps
        init = {}
        phis = {}
        for c in cells:
            v = _cell_get(ex, c)
            if isinstance(v, Alias):
                v = ex.val(v)
            init[_skipkey(c)] = v
            nv, ph = _phi(ex, v, _name(ex, c))
            nb = sym.bits.width(ex.vtypes.get(c[1], '')) if isinstance(nv, P) and c[0] == 'env' else None
            if nb:
                nv = sym.bits.leaf(nb, nv)
            phis[_skipkey(c)] = (c, v, nv, ph)
            _cell_set(ex, c, nv)
        ex.uid += 1
        la = ('loop', name or f'L{ex.uid}', ex.uid)
        lid = atom_id(la)
        loop = Loop(lid, ZERO, P.a(('trip', ex.uid)), True, n.get('l', 0), kind)
        eff0 = len(ex.eff)
        cc = True
        if cond is not None and not post_test:
            cc = cond()
        ex.loops.append(loop)
        npc = len(ex.pc)
        ex.loopsnaps.append([])
        ex.brksnaps.append([])
        ex.loopst.append(st)
        fl = body() or Flow()
        ex.loopst.pop()
        snaps = ex.loopsnaps.pop()
        brks = ex.brksnaps.pop()
        del ex.pc[npc:]
        for sn in reversed(snaps):
            ex.merge_snap(c_and(*sn[1][npc:]), sn, st.env)
        if inc is not None:
            inc()
        if cond is not None and post_test:
            cc = cond()
        ex.loops.pop()
        if st.need:
            continue
        skip = set(phis)
        ch = _changed(ex, st, skip)
        if not ch:
            break
        have = {_skipkey(c) for c in cells}
        cells += [c for c in ch if _skipkey(c) not in have]
    # ---- trip count -----------------------------------------------------
    after, ident = {}, {}
    step = {}
    for k, (c, v0, nv, ph) in phis.items():
        w = _cell_get(ex, c)
        if isinstance(w, Alias):
            w = ex.val(w)
        p = _num(w, v0) if ph is not None else None
        if p is not None and p == nv and isinstance(nv, P):
            p = ph
        after[k] = p
        if p is None:
            ident[k] = identity(ex, w)
    phi_ids = {next(iter(ph.atoms())) for (_, _, _, ph) in phis.values() if ph is not None}
    for k, (c, v0, nv, ph) in phis.items():
        p = after[k]
        if p is None or ph is None:
            continue
        if p == ph:
            step[k] = ZERO
        else:
            d = _diff(p, ph)
            if d is not None:
                step[k] = d
    conts = c_or(fl.brk, fl.ret, fl.thr)
    sub = {}
    trip = None
    descending = False
    conj = [cc] if not (isinstance(cc, tuple) and cc[0] == 'and') else list(cc[1])
    if post_test:
        conj = []
    partial = fl.brk is not False or fl.ret is not False or fl.thr is not False
    if len(conj) > 1:
        partial = True
    for cj in conj:
        if trip is not None or not isinstance(cj, tuple):
            break
        body_c, neg = (cj, False)
        if cj[0] == 'not':
            body_c, neg = cj[1], True
        if body_c[0] not in ('lti', 'eq', 'lt'):
            continue
        if body_c[0] == 'eq' and not neg:
            continue
        if body_c[0] == 'lti' and neg:
            continue
        q = body_c[1]
        ids = q.free() & phi_ids
        if len(ids) != 1:
            # bound itself may depend on an unchanged variable
            ids = {i for i in ids if not any(next(iter(ph.atoms())) == i and step.get(k) == ZERO for k, (_, _, _, ph) in phis.items() if ph is not None)}
            if len(ids) != 1:
                continue
        pid = next(iter(ids))
        k = next(k for k, (_, _, _, ph) in phis.items() if ph is not None and next(iter(ph.atoms())) == pid)
        s = step.get(k)
        if s is None or s.is_zero() or (s.free() & phi_ids) or lid in s.free():
            continue
        c0, v0, nv, ph = phis[k]
        m = ((pid, 1),)
        co = q.t.get(m)
        rest = P({mm: x for mm, x in q.t.items() if mm != m})
        if co is None or pid in rest.free() or co not in (1, -1):
            continue
        for kk, (_, vv, _, pp) in phis.items():      # variables that never change
            if pp is not None and step.get(kk) == ZERO:
                rest = rest.subst({next(iter(pp.atoms())): _num(vv, vv)})
        if rest.free() & phi_ids:
            continue
        a0 = _num(v0, v0)
        sc = s.const()
        if body_c[0] in ('lti', 'lt') and not (body_c[0] == 'lt' and neg):
            if co == 1:
                hi = -rest                     # phi < hi
                if sc is not None and sc < 0:
                    continue
            else:
                hi = rest                      # rest - phi < 0  : phi > rest
                if sc is None or sc >= 0:
                    continue
            if co == 1:
                if sc == 1:
                    loop.lo, loop.hi = a0, hi
                    sub[pid] = P.a(la)
                    trip = hi - a0
                else:
                    trip = P.a(('cdiv', hi - a0, s))
                    loop.lo, loop.hi = ZERO, trip
                    sub[pid] = a0 + s * P.a(la)
            else:
                if sc == -1:
                    # phi runs a0, a0-1, ..., hi+1
                    loop.lo, loop.hi = hi + ONE, a0 + ONE
                    sub[pid] = P.a(la)
                    trip = a0 - hi
                    descending = True
                else:
                    trip = P.a(('cdiv', a0 - hi, -s))
                    loop.lo, loop.hi = ZERO, trip
                    sub[pid] = a0 + s * P.a(la)
        elif body_c[0] == 'eq' and neg:
            hi = -rest if co == 1 else rest
            if sc == 1:
                loop.lo, loop.hi = a0, hi
                sub[pid] = P.a(la)
                trip = hi - a0
            elif sc == -1:
                loop.lo, loop.hi = hi + ONE, a0 + ONE
                sub[pid] = P.a(la)
                trip = a0 - hi
                descending = True
            else:
                continue
        else:
            continue
        mainkey = k
        maincj = cj
        break
    counted = trip is not None
    if counted and not partial and not descending and fl.cont is False and 0 < (_small(loop.hi - loop.lo) or 0) <= UNROLL and n.get('k') in ('for', 'while'):
        _restore(ex, st)
        ex.pendcap = pend0
        ok = True
        for _ in range(int((loop.hi - loop.lo).const())):
            if cond is not None and cond() is not True:
                ok = False
                break
            body()
            if inc is not None:
                inc()
        if ok and (cond is None or cond() is False):
            return None
        raise Unsupported('unrolling')
    if counted:
        loop.kind = 'for'
    if not counted:
        loop.kind = 'while'
        trip = loop.hi
    if descending:
        loop.kind = 'desc'
    if partial:
        loop.partial = True
    lo = loop.lo
    it = P.a(la) - lo if not descending else loop.hi - ONE - P.a(la)   # iteration number
    # ---- closed forms ---------------------------------------------------
    recs = {}
    final = {}
    pending = []
    for k, (c, v0, nv, ph) in phis.items():
        if ph is None:
            final[k] = Opq('loop-carried')
            continue
        pid = next(iter(ph.atoms()))
        a0 = _num(v0, v0)
        s = step.get(k)
        if s is not None and s.is_zero():
            sub[pid] = a0
            final[k] = v0
            continue
        if pid in sub:      # main induction variable
            if partial:
                final[k] = _wrap(P.a(('lastidx', loop.lo, loop.hi)), v0)
            else:
                sc = step[k].const()
                if sc == 1:
                    final[k] = _wrap(mk_max(loop.lo, loop.hi), v0)
                elif sc == -1:
                    final[k] = _wrap(loop.lo - ONE, v0)
                else:
                    final[k] = _wrap(a0 + step[k] * trip, v0)
            continue
        pending.append(k)
    # invariant steps first
    prog_ = True
    while prog_:
        prog_ = False
        for k in list(pending):
            c, v0, nv, ph = phis[k]
            pid = next(iter(ph.atoms()))
            s = step.get(k)
            if s is None:
                continue
            s = s.subst(sub)
            if s.free() & (phi_ids - set(sub)):
                continue
            a0 = _num(v0, v0)
            pending.remove(k)
            prog_ = True
            if lid not in s.free() and not sym_has_opq(s, ex, st):
                sub[pid] = a0 + s * it
                final[k] = _wrap(a0 + s * trip, v0) if not partial else _wrap(P.a(('brk', a0, s, lid)), v0)
            else:
                if a0 is not None and not descending:
                    ex.uid += 1
                    ja = ('loop', f'j{ex.uid}', ex.uid)
                    pre = _to_sum((atom_id(ja), loop.lo, P.a(la), loop.cond), s.subst({lid: P.a(ja)}))
                    sub[pid] = a0 + pre
                else:
                    sub[pid] = P.a(('prefix', a0, s, lid))
                tot = a0 + _to_sum((lid, loop.lo, loop.hi, loop.cond), s)
                final[k] = _wrap(tot, v0) if not partial else _wrap(P.a(('partialsum', a0, s, lid)), v0)
    written = None
    if pending:
        written = _written(ex, eff0)
        lcond = loop.cond
        sysv = _system(pending, phis, after, sub, phi_ids, lid, written)
        for k in sorted(sysv, key=lambda k: next(iter(phis[k][3].atoms()))):
            c, v0, nv, ph = phis[k]
            if _reduction(after[k], ph, sub, phi_ids, lid) is not None:
                continue
            r = _rec(k, sysv, phis, sub, lid, lo if not descending else None, loop)
            pid = next(iter(ph.atoms()))
            recs[pid] = (k, r)
    for pid, (k, r) in recs.items():
        v0 = phis[k][1]
        sub[pid] = r(it)
        final[k] = _wrap(r(trip), v0) if not partial else _wrap(P.a(('brk', r(trip), ZERO, lid)), v0)
        pending.remove(k)
    for k in pending:
        c, v0, nv, ph = phis[k]
        pid = next(iter(ph.atoms()))
        p = after[k]
        a0 = _num(v0, v0)
        if p is not None:
            q = p.subst(sub)
            red = _reduction(p, ph, sub, phi_ids, lid)
            if red is not None:
                final[k] = _wrap(P.a(('red', red[0], (lid, loop.lo, loop.hi, loop.cond), red[1], a0)), v0)
                continue
            if not (q.free() & phi_ids):
                # overwritten on every iteration
                if lid not in q.free() and not partial:
                    final[k] = _wrap(mk_ite(sym.mk_lti(-trip), q, a0) if counted and sym.mk_lti(-trip) is not True else q, v0)
                elif not partial and counted and loop.cond is True and plain(q, lid, written):
                    final[k] = _wrap(mk_ite(sym.mk_lti(-trip), q.subst({lid: loop.hi - ONE if not descending else loop.lo}), a0), v0)
                elif not partial and counted:
                    final[k] = _wrap(P.a(('last', (lid, loop.lo, loop.hi, loop.cond), q, a0)), v0)
                else:
                    final[k] = _wrap(P.a(('lastof', q, a0)), v0)
                continue
            final[k] = _wrap(P.a(('iter', (lid, loop.lo, loop.hi), a0, q)), v0)
        else:
            final[k] = Opq('loop-carried')
    # ---- index of the iteration that leaves the loop -----------------------
    F = None
    dow = post_test and not counted and cond is not None and not partial
    if (partial or not counted) and not descending and (n.get('k') != 'do' or dow):
        B0 = c_or(*[c_not(c_subst(x, sub)) for x in conj if not counted or x is not maincj])
        B1 = c_subst(c_or(fl.brk, fl.ret, fl.thr), sub) if not dow else c_not(c_subst(cc, sub))
        B = c_or(B0, B1)
        written = _written(ex, eff0)
        if B is not True and B is not False and not c_free(B) & (phi_ids - {p for p in phi_ids if p in sub}) and plain(B, lid, written) \
                and (counted or loop.cond is True and (lid in c_free(B) or B0 is False)):
            if counted:
                F = first_index(lid, loop.lo, loop.hi, B)
                some = sym.mk_lti(-mk_sum((lid, loop.lo, loop.hi, B), ONE))
            else:
                F = until(lid, B)
                some = True
                if loop.lo is not ZERO:
                    raise Unsupported('loop bounds')
                loop.hi = F
                loop.kind = 'for'
            at = {lid: F if not dow else F + ONE}
            enter = c_not(c_subst(B0, at))
            kinds = [x is not False for x in (fl.brk, fl.ret, fl.thr)]
            single = B0 is False and (sum(kinds) == 1 or dow)
            for k, (c, v0, nv, ph) in phis.items():
                if ph is None or step.get(k) == ZERO:
                    continue
                pid = next(iter(ph.atoms()))
                a0 = _num(v0, v0)
                if pid in sub:
                    final[k] = _wrap(sub[pid].subst(at), v0)
                    continue
                q = after[k].subst(sub) if after[k] is not None else None
                red = _reduction(after[k], ph, sub, phi_ids, lid) if after[k] is not None else None
                if red is not None:
                    final[k] = _wrap(P.a(('red', red[0], (lid, loop.lo, F if not dow else F + ONE, loop.cond), red[1], a0)), v0)
                elif q is not None and not (q.free() & phi_ids):
                    final[k] = _wrap(mk_ite(sym.mk_lti(loop.lo - F), q.subst({lid: F - ONE}), a0), v0)
                elif q is not None:
                    final[k] = _wrap(P.a(('iter', (lid, loop.lo, F), a0, q)), v0)
    if F is not None:
        for sn in brks:
            g = some if single and len(brks) == 1 else c_and(some, enter, c_subst(c_subst(c_and(*sn[1][npc:]), sub), at))
            for k, (c, v0, nv, ph) in phis.items():
                w = _snapped(ex, sn, c)
                q = _num(w, v0) if ph is not None and w is not None else None
                if q is not None and q == ph:
                    continue
                f0 = _num(final[k], v0) if not isinstance(final[k], Opq) else None
                if q is None or f0 is None:
                    final[k] = Opq('set before break')
                    continue
                q = q.subst(sub)
                if q.free() & (phi_ids - set(sub)):
                    final[k] = _wrap(P.a(('brkval', g, q, f0)), v0)
                else:
                    final[k] = _wrap(mk_ite(g, q.subst(at), f0), v0)
        brks = []
        loop.partial = False
        top = loop.hi
        if B1 is False:
            loop.hi = F
        else:
            loop.hi = F + mk_ite(some, ONE, ZERO)
            if B0 is not False:
                loop.cond = c_not(B0)
        if ex.rets is not None:
            mine = range(st.nr, len(ex.rets))
            for i in mine:
                g, v, sn = ex.rets[i]
                raw = ex.retraw.get(g)
                if raw is None:
                    continue
                pcs, v, np_ = raw
                cut = npc - ex.base_pc
                if single and len(mine) == 1:
                    pcs = pcs[:cut] + [some]
                else:
                    pcs = pcs[:cut] + [some, enter] + [c_subst(c_subst(x, sub), at) for x in pcs[cut:]]
                if v is not None:
                    v = subst_val(subst_val(v, sub), at)
                for d in ([sn[2]] + [f for _, f in sn[3].values()]) if sn else []:
                    for kk, x in (list(d.items()) if isinstance(d, dict) else list(enumerate(d))):
                        if isinstance(x, (P, C, Ptr, Vec)):
                            d[kk] = subst_val(subst_val(x, sub), at)
                bad = {l for l in phi_ids - set(sub)}
                if not plain(c_and(*pcs), lid, written) or v is not None and not (_frees(v) is not None and not _frees(v) & bad and not _loads(v) & written):
                    ex.retraw.pop(g)
                elif len(ex.loops) > ex.base_loops:
                    ex.retraw[g] = (pcs, v, np_)
                else:
                    ex.rets[i] = (c_and(*pcs), v, sn)
    elif ex.rets is not None:
        for i in range(st.nr, len(ex.rets)):
            ex.retraw.pop(ex.rets[i][0], None)
    # ---- values carried out of the loop by a break ------------------------
    for sn in brks:
        g = c_subst(c_and(*sn[1][npc:]), sub)
        for k, (c, v0, nv, ph) in phis.items():
            w = _snapped(ex, sn, c)
            q = _num(w, v0) if ph is not None and w is not None else None
            if q is not None and q == ph:
                continue
            f0 = _num(final[k], v0) if not isinstance(final[k], Opq) else None
            if q is None or f0 is None:
                final[k] = Opq('set before break')
            else:
                final[k] = _wrap(P.a(('brkval', g, q.subst(sub), f0)), v0)
    # ---- rewrite what the body produced ----------------------------------
    if sub:
        for i in range(eff0, len(ex.eff)):
            ex.eff[i] = ex.eff[i].subst(sub)
    # what the summary does not capture: loop-carried variables and exit conditions
    if ex.loopmeta:
        pre = []
        for k in pending:
            c, v0, nv, ph = phis[k]
            a0 = _num(v0, v0)
            pb = ATOMS[next(iter(ph.atoms()))]
            if a0 is not None:
                ex.emit('phi', n, base=pb, off=ZERO, val=a0)
                pre.append(ex.eff.pop())
            p = after[k]
            if p is None:
                p = ident.get(k)
            if p is not None and p != ph:
                ex.loops.append(loop)
                ex.emit('phi', n, base=pb, off=ZERO, val=p.subst(sub))
                ex.loops.pop()
        for e_ in pre:
            ex.eff.insert(eff0, e_)
        if F is None and (partial or not counted):
            ex.loops.append(loop)
            ex.emit('loop', n, name='loop-exit', args=[C(sym.c_subst(x, sub)) if not isinstance(x, bool) else P.c(int(x)) for x in (cc, fl.brk, fl.ret, fl.thr)])
            ex.loops.pop()
    # the Loop object may be shared by effects copied during subst: refresh bounds
    for i in range(eff0, len(ex.eff)):
        e = ex.eff[i]
        ls = []
        for l in e.loops:
            if l.atom == lid:
                l.lo, l.hi, l.kind, l.partial, l.cond = loop.lo, loop.hi, loop.kind, loop.partial, loop.cond
            ls.append(l)
        if partial:
            pass
    for k, (c, v0, nv, ph) in phis.items():
        _cell_set(ex, c, final.get(k, Opq('loop-carried')))
    # values of other cells that mention phis (e.g. container sizes, temporaries)
    if sub:
        for k, v in list(ex.env.items()):
            if ('env', k) in phis:
                continue
            ex.env[k] = subst_val(v, sub)
    if F is not None and B1 is not False:
        nb = c_not(B1)
        need = set(nb[1]) if nb[0] == 'and' else {nb}
        mine = [e for e in ex.eff[eff0:] if any(l.atom == lid for l in e.loops)]
        if all(isinstance(e.guards, tuple) and need <= (set(e.guards[1]) if e.guards[0] == 'and' else {e.guards}) for e in mine):
            for e in mine:
                for l in e.loops:
                    if l.atom == lid:
                        l.hi = F
            loop.hi = F
    ret = Flow()
    if F is not None:
        for k, x in (('ret', fl.ret), ('thr', fl.thr)):
            if x is not False:
                setattr(ret, k, some if single else c_and(some, enter, c_subst(c_subst(x, sub), at)))
        return ret if (ret.ret is not False or ret.thr is not False) else None
    if fl.ret is not False:
        ret.ret = True if (fl.ret is True and False) else ('loopexit', ex.fresh('x'))
    if fl.thr is not False:
        ret.thr = ('loopexit', ex.fresh('x'))
    if cc is True and fl.brk is False and cond is not None and not post_test and fl.ret is not False:
        ret.ret = True
    return ret if (ret.ret is not False or ret.thr is not False) else None


def _written(ex, eff0):
    written = {e.base for e in ex.eff[eff0:] if isinstance(e.base, tuple)}
    for e in ex.eff[eff0:]:
        if e.kind in ('call', 'ctor', 'scan'):
            written |= {a.base for a in e.args or [] if isinstance(a, (Ptr, Vec)) and a.base}
    return written


def _system(pending, phis, after, sub, phi_ids, lid, written):
    """variables whose next values are functions of one another, of the iteration and of unchanged memory"""
    ok = {}
    for k in pending:
        p = after[k]
        a0 = _num(phis[k][1], phis[k][1])
        if p is None or a0 is None:
            continue
        q = p.subst(sub)
        if plain(q, None, written, phi_ids) and plain(a0, None, ()):
            ok[k] = q
    while True:
        ids = {next(iter(phis[k][3].atoms())) for k in ok}
        bad = [k for k, q in ok.items() if q.free() & (phi_ids - ids - set(sub))]
        if not bad:
            return ok
        for k in bad:
            del ok[k]


def _rec(k, sysv, phis, sub, lid, lo, loop):
    """n -> value of variable k after n iterations"""
    use, st = [], [k]
    ids = {next(iter(phis[x][3].atoms())): x for x in sysv}
    while st:
        x = st.pop()
        if x in use:
            continue
        use.append(x)
        st += [ids[i] for i in sysv[x].free() if i in ids]
    use = [k] + sorted((x for x in use if x != k), key=lambda x: next(iter(phis[x][3].atoms())))
    _N[0] += 1
    j = P.a(('loop', 'j', ('rec', _N[0])))
    mp = {lid: lo + j if lo is not None else loop.hi - ONE - j}
    names = []
    for n, x in enumerate(use):
        b = P.a(('loop', f'r{n}', ('rec', _N[0], n)))
        names.append(next(iter(b.atoms())))
        mp[next(iter(phis[x][3].atoms()))] = b
    vs = tuple((i, _num(phis[x][1], phis[x][1]), sysv[x].subst(mp)) for i, x in zip(names, use))
    jid = next(iter(j.atoms()))
    return lambda n: sym.mk_rec(vs, jid, n)


def _snapped(ex, sn, c):
    if c[0] == 'env':
        w = sn[2].get(c[1])
    else:
        o = sn[3].get(id(c[1]))
        w = (o[1].get(c[2]) if isinstance(o[1], dict) else o[1][c[2]]) if o else None
    return ex.val(w) if isinstance(w, Alias) else w


def _parts(v):
    if isinstance(v, P):
        return [v]
    if isinstance(v, C):
        return [v.c]
    if isinstance(v, Ptr):
        return [v.off] if isinstance(v.off, P) else []
    if isinstance(v, Tup):
        l = [_parts(x) for x in v.v]
        return None if any(x is None for x in l) else sum(l, [])
    return None


def _frees(v):
    l = _parts(v)
    if l is None:
        return None
    s = set()
    for x in l:
        s |= x.free() if isinstance(x, P) else c_free(x)
    return s


def _loads(v):
    """bases of the memory a value reads"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, P):
            for i in x.atoms():
                if i not in seen:
                    seen.add(i)
                    go(ATOMS[i])
        elif isinstance(x, tuple):
            if x and x[0] == 'ld':
                out.add(x[1][1] if x[1][0] == 'at' else x[1])
            for y in x:
                go(y)
        elif isinstance(x, frozenset):
            for y in x:
                go(y)
    for x in _parts(v) or []:
        go(x)
    return out


PLAIN = {'loop', 'par', 'p', 'fld', 'ld', 'size', 'sum', 'ite', 'mod', 'idiv', 'abs', 'min', 'max', 'inv', 'call', 'szof', 'sqrt', 'enum', 'c', 'rec', 'recn', 'red'} | set(sym.bits.TAGS)
_PL = {}


def plain(x, lid, written, own=()):
    """is the condition a function of loop indices, parameters and memory that is not written meanwhile?"""
    if isinstance(x, P):
        for i in x.atoms():
            a = ATOMS[i]
            if i in own:
                continue
            if a[0] not in PLAIN:
                if lid is None or lid in atom_free(i) or _loads(P.a(a)) & set(written):
                    return False
                continue
            if a[0] == 'ld' and (a[1] in written or a[1][0] in ('at', 'v') and a[1][1] in written):
                return False
            if not all(plain(y, lid, written, own) for y in a[1:] if isinstance(y, (P, tuple, frozenset))):
                return False
        return True
    if isinstance(x, frozenset):
        return all(plain(y, lid, written, own) for y in x)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ('opqc', 'exc', 'loopexit', 'loopret', 'ptreq', 'objcmp'):
            return False
        return all(plain(y, lid, written, own) for y in x if isinstance(y, (P, tuple, frozenset)))
    return True


def first_index(lid, lo, hi, c):
    """first index in [lo, hi) for which c holds, or hi"""
    _N[0] += 1
    i, j = (P.a(('loop', f'{t}{_N[0]}', ('first', t, _N[0]))) for t in 'ij')
    seen = mk_sum((next(iter(j.atoms())), lo, i + ONE, c_subst(c, {lid: j})), ONE)
    return lo + mk_sum((next(iter(i.atoms())), lo, hi, sym.mk_eq(seen)), ONE)


def until(lid, c):
    """first index >= 0 for which c holds"""
    _N[0] += 1
    j = P.a(('loop', 'j', ('rec', _N[0])))
    return P.a(('recn', (), next(iter(j.atoms())), c_subst(c, {lid: j})))


_N = [0]


def mk_max(lo, hi):
    """value of an ascending counter after `for(i=lo; i<hi; ++i)`: hi when the range is not empty"""
    return hi


def _name(ex, c):
    if c[0] == 'env' and isinstance(c[1], tuple):
        return f'v{c[1][1]}' if len(c[1]) > 1 else str(c[1])
    return str(c[2]) if c[0] != 'env' else str(c[1])


def sym_has_opq(p, ex, st):
    """does the step contain values created inside the loop body (per-iteration unknowns)?"""
    return any(ATOMS[a][0] in ('opq', 'val', 'uninit', 'iter', 'lastidx') for a in p.free())


def _reduction(p, ph, sub, phi_ids, lid):
    a = p.single_atom()
    pid = next(iter(ph.atoms()))
    if a and a[0] in ('max', 'min'):
        if ph in a[1]:
            rest = frozenset(x.subst(sub) for x in a[1] if x != ph)
            if not any(x.free() & (phi_ids - set(sub)) for x in rest):
                return a[0], rest
    return None


def subst_val(v, sub):
    if isinstance(v, P):
        return v.subst(sub)
    if isinstance(v, C):
        return C(c_subst(v.c, sub))
    if isinstance(v, Ptr) and isinstance(v.off, P):
        o = v.off.subst(sub)
        return v if o is v.off else Ptr(v.base, o, v.ext)
    if isinstance(v, Vec) and v.size is not None:
        o = v.size.subst(sub)
        return v if o is v.size else Vec(v.base, o, v.et)
    if isinstance(v, Tup):
        v.v[:] = [subst_val(x, sub) for x in v.v]
    return v


# ------------------------------------------------------------- entry points
def do_for(ex, s):
    if s.get('init'):
        ex.stmt(s['init'])
    cond = (lambda: _cond(ex, s['c'])) if s.get('c') else None
    inc = (lambda: ex.ev(s['inc'])) if s.get('inc') else None
    nm = None
    i = s.get('init')
    if i and i['k'] == 'decl' and i['vars']:
        nm = i['vars'][0]['n']
    return general(ex, s, cond, lambda: ex.stmt(s['body']) if s.get('body') else None, inc, [s.get('c'), s.get('inc'), s.get('body')], nm)


def _cond(ex, c):
    r = to_c(ex.ev(c))
    if r is None:
        r = ('opqc', ex.fresh('c'))
    return r


def do_while(ex, s):
    return general(ex, s, lambda: _cond(ex, s['c']), lambda: ex.stmt(s['body']) if s.get('body') else None, None, [s['c'], s['body']], None, kind='while')


def do_do(ex, s):
    return general(ex, s, lambda: _cond(ex, s['c']), lambda: ex.stmt(s['body']), None, [s['c'], s['body']], None, post_test=True, kind='do')


def do_rfor(ex, s):
    l = ex.lv(s['range'])
    v = ex.get(l) if l[0] != 'val' else l[1]
    var = s['var']
    t = ex.ty(var)
    if isinstance(v, Ptr) and v.base[0] != 'new':
        v = ex.deref_obj(v, s['range'])
    if isinstance(v, Tup):
        fl = Flow()
        for j in range(len(v.v)):
            bindvar(ex, var, t, ('tup', v, j), ex.val(v.v[j]))
            f = ex.stmt(s['body'])
            if f is not None and (f.brk is not False or f.ret is not False):
                ex.log(s, 'exit from unrolled loop')
        return None
    if isinstance(v, Vec):
        et = v.et
        sz = ex.size_of(v)

        def body(i):
            off = i
            bindvar(ex, var, t, ('elem', v.base, off, et), None)
            return ex.stmt(s['body'])
        return synth(ex, s, sz, body, [s['body']], var.get('n') or 'it')
    key = v.key if isinstance(v, Obj) else ('range', ex.fresh('r')[1])

    def body(i):
        bindvar(ex, var, t, ('elem', ('el', key), i, t), None)
        return ex.stmt(s['body'])
    return synth(ex, s, P.a(('size', key)), body, [s['body']], var.get('n') or 'it')


def bindvar(ex, var, t, lv, val):
    key = ex.vk(var['id'])
    ex.vtypes[key] = t
    if val is None:
        val = ex.get(lv)
    if 'bind' in var:
        ex.bind(var, val, t)
        return
    if t.endswith('&'):
        ex.env[key] = Alias(lv) if lv[0] != 'val' else val
    else:
        ex.env[key] = val


def synth(ex, n, count, fn, ast=(), name=None):
    """for(i = 0; i < count; ++i) fn(i)"""
    k = count.const()
    if k is not None and k <= 0:
        return None
    cell = ('synth', ex.fresh('s')[1])
    ex.env[cell] = ZERO

    def cond():
        return to_c(C(sym.mk_lti(ex.env[cell] - count)))

    def body():
        r = fn(ex.env[cell])
        return r if isinstance(r, Flow) else None

    def inc():
        ex.env[cell] = ex.env[cell] + ONE
    r = general(ex, n, cond, body, inc, list(ast), name or 'i', extra=[('env', cell)])
    ex.env.pop(cell, None)
    return r
