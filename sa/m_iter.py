"""iterators and closures"""
import lin as L
from eng import U, MOVED, TRUE, FALSE, Frame, SFrame
from models import (model, PREFIX, C, S, some, none, ok, err, targ, deref, strip_refs, cont, clen, with_, take, put, adt,
                    OPTION, RESULT, sframe, spush, sset, TABLE, havoc_ref)
from m_std import slice_of, retype, materialize, concat, default_of, enum_split, focus, map_lookup


def as_it(e, st, v):
    """an iterator value for v (a container, a reference to one, a range, an iterator), or None"""
    if v[0] == 'it':
        return v
    if v[0] == 'c':
        if v[1] == 'map':
            return ('it', 'mapown', v[2], ('?',), ('?',), 'into', v[4])
        if v[1].startswith('map:'):
            return ('it', 'mapown', v[2], ('?',), ('?',), v[1][4:], v[4])
        return ('it', 'own', v, 'into')
    if v[0] == 'sl':
        return ('it', 'ref', v[1], v[2], v[3], 'mut' if len(v) > 4 and 'm' in v[4] else 'ref')
    if v[0] == 's' and v[1][0] == 'adt':
        t = v[1][1].split('::')[-1]
        f = dict(v[4])
        if t == 'Range' and f[0][0] == 'n' and f[1][0] == 'n':
            return ('it', 'range', f[0], f[1])
        if t == 'RangeInclusive' and f[0][0] == 'n' and f[1][0] == 'n':
            return ('it', 'range', f[0], ('n', L.addc(f[1][1], 1)))
        if t == 'RangeFrom' and f[0][0] == 'n':
            return ('it', 'range', f[0], None)
        if v[1][1] == OPTION:
            if v[2] == 0:
                return ('it', 'own', cont('vec'), 'into')
            return ('it', 'once', f[0])
    if v[0] == 'r':
        x = e.load(st, v[1])
        if x[0] == 'c':
            if x[1] == 'map':
                return ('it', 'mapref', x[2], ('?',), ('?',), 'iter')
            return ('it', 'ref', v[1], ('n', L.ZERO), x[2], v[2] if v[2] in ('mut', 'ref') else 'ref')
        if x[0] == 'it':
            return ('it', 'byref', v)
        if x[0] == 'sl':
            return as_it(e, st, x)
        if x[0] == 's' and as_it(e, st, x) is not None and x[1][1].split('::')[-1].startswith('Range'):
            return ('it', 'byref', v)
        if x[0] == 'r':
            return as_it(e, st, x)
        if x[0] == 'guard':
            return as_it(e, st, x[2])
    return None


def pull(e, st, it, back=False, want=('?',)):
    """[(state, iterator', item | None, ops)]: ops are still to be applied to the item"""
    k = it[1]
    if k == 'range':
        lo, hi = it[2][1], it[3]
        if hi is None:
            return [(st, ('it', 'range', ('n', L.addc(lo, 1)), None), it[2], ())]
        hi = hi[1]
        n = L.sub(hi, lo)
        out = []
        s2 = st.copy()
        for s in e.assume(s2, ('ge', ('n', L.addc(n, -1))), False):
            out.append((s, it, None, ()))
        for s in e.assume(st, ('ge', ('n', L.addc(n, -1))), True):
            if back:
                out.append((s, ('it', 'range', it[2], ('n', L.addc(hi, -1))), ('n', L.addc(hi, -1)), ()))
            else:
                out.append((s, ('it', 'range', ('n', L.addc(lo, 1)), it[3]), it[2], ()))
        return out
    if k == 'once':
        if it[2] is None:
            return [(st, it, None, ())]
        return [(st, ('it', 'once', None), it[2], ())]
    if k == 'own':
        c = it[2]
        n = clen(c)
        out = []
        s2 = st.copy()
        for s in e.assume(s2, ('eq', ('n', n)), True):
            out.append((s, ('it', 'own', with_(c, L.ZERO, ('empty',)), it[3]), None, ()))
        for s in e.assume(st, ('ge', ('n', L.addc(n, -1))), True):
            x, c2 = take(e, s, c, 'back' if back else 'front')
            if x is None:
                x = e.fresh(s, want) if want != ('?',) else e.opaque(('?',))
            elif x[0] == 'y' and x[2] == ('?',):
                x = retype(s, x, want)
            for s4 in e.models.born(e, s, x):
                e.emit(s4, "iter_item", it=it, v=x)
                out.append((s4, ('it', 'own', c2, it[3]), x, ()))
        return out
    if k == 'ref':
        loc, lo, hi, kind = it[2], it[3][1], it[4][1], it[5]
        n = L.sub(hi, lo)
        out = []
        s2 = st.copy()
        for s in e.assume(s2, ('ge', ('n', L.addc(n, -1))), False):
            out.append((s, it, None, ()))
        for s in e.assume(st, ('ge', ('n', L.addc(n, -1))), True):
            ix = L.addc(hi, -1) if back else lo
            r = ('r', ('loc', loc[1], loc[2] + (('e', ('n', ix)),)), kind)
            ni = ('it', 'ref', loc, it[3], ('n', ix), kind) if back else ('it', 'ref', loc, ('n', L.addc(lo, 1)), it[4], kind)
            out.append((s, ni, r, ()))
        return out
    if k == 'mapown' and focus(st) is not None:
        return pull_tracked(e, st, it, want)
    if k in ('mapown', 'mapref'):
        n = it[2][1]
        out = []
        s2 = st.copy()
        for s in e.assume(s2, ('eq', ('n', n)), True):
            out.append((s, it[:2] + (('n', L.ZERO),) + it[3:], None, ()))
        for s in e.assume(st, ('ge', ('n', L.addc(n, -1))), True):
            kt, vt = it[3], it[4]
            if k == 'mapown':
                kv = e.fresh(s, kt) if kt != ('?',) else e.opaque(kt)
                vv = e.fresh(s, vt) if vt != ('?',) else e.opaque(vt)
                if it[5] == 'into' and want[0] == 'tuple' and len(want[1]) == 2:
                    kv, vv = e.fresh(s, want[1][0]), e.fresh(s, want[1][1])
                x = S(('tuple', ()), 0, kv, vv)
                e.emit(s, "map_item", key=kv, val=vv)
                if it[5] == 'values':
                    x = vv
                elif it[5] == 'keys':
                    x = kv
            else:
                kr = ('r', ('loc', e.newcell(s, e.fresh(s, kt)), ()), 'ref')
                vr = ('r', ('loc', e.newcell(s, e.fresh(s, vt)), ()), 'mut' if 'mut' in it[5] else 'ref')
                x = kr if it[5] == 'keys' else vr if it[5].startswith('values') else S(('tuple', ()), 0, kr, vr)
            out.append((s, it[:2] + (('n', L.addc(n, -1)),) + it[3:], x, ()))
        return out
    if k == 'byref':
        inner = e.load(st, it[2][1])
        inner = as_it(e, st, inner) or ('it', 'unk')
        out = []
        for s, i2, x, ops in pull(e, st, inner, back, want):
            e.store(s, it[2][1], i2)
            out.append((s, it, x, ops))
        return out
    if k == 'rev':
        return [(s, ('it', 'rev', i2), x, ops) for s, i2, x, ops in pull(e, st, it[2], not back, want)]
    if k in ('map', 'filter', 'inspect', 'filter_map', 'take_while', 'map_while'):
        return [(s, ('it', k, i2, it[3]), x, ops + ((k, it[3]),)) for s, i2, x, ops in pull(e, st, it[2], back)]
    if k in ('cloned', 'copied'):
        return [(s, ('it', k, i2), x, ops + (('cloned',),)) for s, i2, x, ops in pull(e, st, it[2], back)]
    if k == 'enum':
        n = it[3]
        return [(s, ('it', 'enum', i2, ('n', L.addc(n[1], 1)) if x is not None else n), x, ops + (('enum', n),)) for s, i2, x, ops in pull(e, st, it[2], back)]
    if k == 'take':
        n = it[3][1]
        out = []
        s2 = st.copy()
        for s in e.assume(s2, ('ge', ('n', L.addc(n, -1))), False):
            out.append((s, it, None, ()))
        for s in e.assume(st, ('ge', ('n', L.addc(n, -1))), True):
            for s3, i2, x, ops in pull(e, s, it[2], back, want):
                out.append((s3, ('it', 'take', i2, ('n', L.addc(n, -1)) if x is not None else it[3]), x, ops))
        return out
    if k == 'skip':
        inner = it[2]
        if inner[1] == 'ref' and it[3][0] == 'n':
            lo = L.add(inner[3][1], it[3][1])
            out = []
            s2 = st.copy()
            for s in e.assume(s2, ('ge', ('n', L.sub(inner[4][1], lo))), False):
                out.append((s, it, None, ()))
            for s in e.assume(st, ('ge', ('n', L.sub(inner[4][1], lo))), True):
                out += pull(e, s, ('it', 'ref', inner[2], ('n', lo), inner[4], inner[5]), back, want)
            return out
        out = [(st.copy(), it, None, ())]
        x = e.opaque(want)
        out.append((st, it, x, ()))
        return out
    if k == 'chain':
        out = []
        for s, i2, x, ops in pull(e, st, it[2], back, want):
            if x is not None:
                out.append((s, ('it', 'chain', i2, it[3]), x, ops))
            else:
                for s3, j2, y, o2 in pull(e, s, it[3], back, want):
                    out.append((s3, ('it', 'chain', i2, j2), y, o2))
        return out
    if k == 'zip':
        out = []
        for s, i2, x, ops in pull(e, st, it[2], back):
            if x is None:
                out.append((s, ('it', 'zip', i2, it[3]), None, ()))
                continue
            for s3, j2, y, o2 in pull(e, s, it[3], back):
                if y is None:
                    out.append((s3, ('it', 'zip', i2, j2), None, ()))
                elif ops or o2:
                    out.append((s3, ('it', 'zip', i2, j2), e.opaque(('?',)), ()))
                else:
                    out.append((s3, ('it', 'zip', i2, j2), S(('tuple', ()), 0, x, y), ()))
        return out
    # unknown iterator
    s2 = st.copy()
    return [(s2, it, None, ()), (st, it, e.fresh(st, want) if want != ('?',) else e.opaque(want), ())]


def pull_tracked(e, st, it, want):
    """an owned map is consumed in any order; the tracked key comes exactly once if it is there"""
    K = focus(st)
    n = it[2][1]
    kt, vt = it[3], it[4]
    if it[5] == 'values' and vt == ('?',):
        vt = want
    if kt == ('?',) and want[0] == 'tuple' and len(want[1]) == 2:
        kt, vt = want[1]
    m = ('c', 'map', it[2], None, it[6])
    known = map_lookup(e, st, m, K)
    cases = []
    if known is None:
        if e.entails_eq(st, n):
            cases.append((st, 'not', U))
        else:
            s2 = st.copy()
            cases.append((s2, 'not', U))
            if e.assume_ge(st, L.addc(n, -1)):
                cases.append((st, 'has', e.fresh(st, vt) if vt != ('?',) else e.opaque(vt)))
    else:
        cases.append((st, known[0], known[1]))
    out = []

    def shape(kv, vv):
        return vv if it[5] == 'values' else kv if it[5] == 'keys' else S(('tuple', ()), 0, kv, vv)
    for st, has, val in cases:
        cont_ = lambda h, v: ('map', ((K, h, v),))
        if has == 'not':
            s = st.copy()
            for s in e.assume(s, ('eq', ('n', n)), True):
                out.append((s, it[:2] + (('n', L.ZERO),) + it[3:6] + (cont_('not', U),), None, ()))
        else:
            s = st.copy()
            if e.assume_ge(s, L.addc(n, -1)):
                e.emit(s, "map_item", key=K, val=val)
                out.append((s, it[:2] + (('n', L.addc(n, -1)),) + it[3:6] + (cont_('not', U),), shape(K, val), ()))
        if e.assume_ge(st, L.addc(n, -1 if has == 'not' else -2)):
            kv = e.fresh(st, kt) if kt != ('?',) else e.fresh_int(st)
            if kv[0] == 'n' and not e.assume_ge(st, L.addc(L.sub(kv[1], K[1]), -1)):
                continue
            vv = e.fresh(st, vt) if vt != ('?',) else e.opaque(vt)
            e.emit(st, "map_item", key=kv, val=vv)
            out.append((st, it[:2] + (('n', L.addc(n, -1)),) + it[3:6] + (cont_(has, val),), shape(kv, vv), ()))
    return out


def tup_args(e, st, v):
    if v[0] == 's':
        return [x for _, x in v[4]]
    if v[0] == 'u':
        return []
    return [v]


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_fncall(c):
    args = tup_args(c.e, c.st, c.a[1])
    f = c.a[0]
    return c.e.models.call_value(c.e, c.st, f, args, c.dest, c.ty, c.sp)


# -------- the loop driver
# data = (phase, it, mode, acc, item, ops)
#   phase 'pull' (pc 0, merged) | 'ops' | 'item'
@sframe('iter', True)
def s_iter(m, e, st, f, v):
    it, mode, acc, item, ops = f.data
    if f.pc == 0:
        out = []
        for s, i2, x, o in pull(e, st, it, False, mode[2] if len(mode) > 2 else ('?',)):
            if x is None:
                sset(s, 0, (i2, mode, acc, None, ()))
                out += done(m, e, s, i2, mode, acc)
            else:
                sset(s, 1, (i2, mode, acc, x, o))
                out.append(s)
        return out
    if f.pc == 1:
        if ops:
            o = ops[0]
            if o[0] == 'cloned':
                x = strip_one(e, st, item)
                sset(st, 1, (it, mode, acc, x, ops[1:]))
                return [st]
            if o[0] == 'enum':
                sset(st, 1, (it, mode, acc, S(('tuple', ()), 0, o[1], item), ops[1:]))
                return [st]
            if o[0] in ('map', 'filter_map', 'map_while'):
                sset(st, 2, (it, mode, acc, MOVED, ops))
                return call_in(m, e, st, o[1], [item], f.site)
            # filter / inspect / take_while: by reference
            cell = ('S', len(st.fr) - 1)
            st.mem[cell] = item
            sset(st, 2, (it, mode, acc, item, ops))
            return call_in(m, e, st, o[1], [('r', ('loc', cell, ()), 'ref')], f.site)
        return consume(m, e, st, f, it, mode, acc, item)
    if f.pc == 2:
        o = ops[0]
        if o[0] == 'map':
            sset(st, 1, (it, mode, acc, v, ops[1:]))
            return [st]
        if o[0] == 'inspect':
            sset(st, 1, (it, mode, acc, item, ops[1:]))
            return [st]
        if o[0] in ('filter_map', 'map_while'):
            out = []
            for s, var in enum_split(e, st, v, OPTION):
                if var == 1:
                    sset(s, 1, (it, mode, acc, e.proj(s, v, (1, 0)), ops[1:]))
                    out.append(s)
                elif o[0] == 'filter_map':
                    out += again(m, e, s, it, mode, acc)
                else:
                    out += done(m, e, s, it, mode, acc)
            return out
        out = []
        b = e.tobool(st, v)
        s2 = st.copy()
        for s in e.assume(st, b, True):
            sset(s, 1, (it, mode, acc, item, ops[1:]))
            out.append(s)
        for s in e.assume(s2, b, False):
            if o[0] == 'take_while':
                out += done(m, e, s, it, mode, acc)
            else:
                out += again(m, e, s, it, mode, acc)
        return out
    if f.pc == 3:
        return consumed(m, e, st, f, it, mode, acc, item, v)
    raise Exception(f.pc)


def again(m, e, st, it, mode, acc):
    st.mem.pop(('S', len(st.fr) - 1), None)
    sset(st, 0, (it, mode, acc, None, ()))
    return [st]


def strip_one(e, st, v):
    return e.load(st, v[1]) if v[0] == 'r' else v


def call_in(m, e, st, f, args, site):
    """call closure value f from a synthetic frame; its result resumes the frame"""
    return m.call_value(e, st, f, args, None, ('?',), site)


def consume(m, e, st, f, it, mode, acc, item):
    k = mode[0]
    if k == 'next':
        r = mode[1]
        e.store(st, r[1], it)
        return e.ret(st, some(item, mode[3]))
    if k == 'collect':
        acc2 = put(e, st, acc, item, 'back')
        return again(m, e, st, it, mode, acc2)
    if k == 'collectmap':
        return again(m, e, st, it, mode, ('c', 'map', e.fresh_int(st), None, ('map', ())))
    if k == 'collectres':
        out = []
        for s, var in enum_split(e, st, item, RESULT):
            x = e.proj(s, item, (var, 0))
            if var == 0:
                out += again(m, e, s, it, mode, put(e, s, acc, x, 'back'))
            else:
                out += e.ret(s, err(x))
        return out
    if k == 'extend':
        r = mode[1]
        c = e.load(st, r[1])
        nv = put(e, st, c, item, 'back')
        e.store(st, r[1], nv)
        e.emit(st, "push", loc=r[1], v=item, end='back', old=c, new=nv, span=f.site)
        return again(m, e, st, it, mode, acc)
    if k == 'sum':
        x = strip_refs(e, st, item)[1]
        if x[0] == 'n' and acc[0] == 'n':
            n = e.fresh_int(st)
            e.add_eq(st, L.sub(n[1], L.add(acc[1], x[1])))
            return again(m, e, st, it, mode, n)
        return again(m, e, st, it, mode, e.fresh_int(st))
    if k == 'count':
        return again(m, e, st, it, mode, ('n', L.addc(acc[1], 1)))
    if k in ('for_each', 'any', 'all', 'position', 'find_map', 'try_for_each'):
        sset(st, 3, (it, mode, acc, item if k == 'find' else None, ()))
        return call_in(m, e, st, mode[1], [item], f.site)
    if k == 'find':
        cell = ('S', len(st.fr) - 1)
        st.mem[cell] = item
        sset(st, 3, (it, mode, acc, item, ()))
        return call_in(m, e, st, mode[1], [('r', ('loc', cell, ()), 'ref')], f.site)
    if k == 'fold':
        sset(st, 3, (it, mode, MOVED, None, ()))
        return call_in(m, e, st, mode[1], [acc, item], f.site)
    if k == 'last':
        return again(m, e, st, it, mode, some(item))
    return again(m, e, st, it, mode, acc)


def consumed(m, e, st, f, it, mode, acc, item, v):
    k = mode[0]
    if k == 'for_each':
        return again(m, e, st, it, mode, acc)
    if k == 'fold':
        return again(m, e, st, it, mode, v)
    if k in ('any', 'all', 'position', 'find'):
        b = e.tobool(st, v)
        out = []
        s2 = st.copy()
        for s in e.assume(st, b, True):
            if k == 'all':
                out += again(m, e, s, it, mode, acc)
            else:
                out += e.ret(s, TRUE if k == 'any' else some(acc if k == 'position' else item))
        for s in e.assume(s2, b, False):
            if k == 'all':
                out += e.ret(s, FALSE)
            else:
                out += again(m, e, s, it, mode, ('n', L.addc(acc[1], 1)) if k == 'position' else acc)
        return out
    if k == 'find_map':
        out = []
        for s, var in enum_split(e, st, v, OPTION):
            if var == 1:
                out += e.ret(s, v)
            else:
                out += again(m, e, s, it, mode, acc)
        return out
    if k == 'try_for_each':
        out = []
        for s, var in enum_split(e, st, v, RESULT):
            if var == 0:
                out += again(m, e, s, it, mode, acc)
            else:
                out += e.ret(s, v)
        return out
    return again(m, e, st, it, mode, acc)


def done(m, e, st, it, mode, acc):
    st.mem.pop(('S', len(st.fr) - 1), None)
    k = mode[0]
    if k == 'next':
        e.store(st, mode[1][1], it)
        return e.ret(st, none(mode[3]))
    if k in ('collect', 'collectmap', 'sum', 'count', 'fold', 'last'):
        return e.ret(st, acc)
    if k == 'collectres':
        return e.ret(st, ok(acc))
    if k in ('extend', 'for_each'):
        return e.ret(st, U)
    if k == 'try_for_each':
        return e.ret(st, ok(U))
    if k == 'any':
        return e.ret(st, FALSE)
    if k == 'all':
        return e.ret(st, TRUE)
    if k in ('find', 'position', 'find_map'):
        return e.ret(st, none())
    return e.ret(st, U)


def itfn(*names):
    full = []
    for n in names:
        full += ['std::iter::Iterator::' + n, 'std::iter::DoubleEndedIterator::' + n, 'std::iter::ExactSizeIterator::' + n]
    return model(*full)


def local_iter(c):
    """a user-defined iterator: run its own next()"""
    return c.f[4] and c.f[4] in c.e.prog.bodies and not c.e.prog.bodies[c.f[4]].ext


@itfn('next', 'next_back')
def i_next(c):
    e, st = c.e, c.st
    if local_iter(c):
        return None
    back = c.name.endswith('back')
    r, v = strip_refs(e, st, c.a[0])
    it = as_it(e, st, v) if v[0] != 'c' else None
    if it is None or r[0] != 'r':
        if v[0] == 'y':
            return NotImplemented
        return c.fin(e.fresh(st, c.ty))
    want = targ(c.ty, 0)
    outs = []
    res = []
    for s, i2, x, ops in pull(e, st, it, back, want):
        if x is None:
            e.store(s, r[1], i2)
            outs.append((s, none(c.ty)))
        elif not ops:
            e.store(s, r[1], i2)
            outs.append((s, some(x, c.ty)))
        else:
            spush(s, 'iter', 1, (i2, ('next', r, want, c.ty), U, x, ops), c.dest, c.sp)
            res.append(s)
    return c.many(outs) + res


@model('std::iter::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::slice::<impl [T]>::iter',
       'std::collections::VecDeque::iter', 'std::collections::VecDeque::iter_mut', 'std::vec::Vec::iter', 'std::vec::Vec::into_iter')
def i_into(c):
    e, st = c.e, c.st
    if local_iter(c):
        return None
    v = c.a[0]
    if v[0] == 's' and v[1][0] == 'adt' and v[1][1].split('::')[-1].startswith('Range'):
        return c.fin(v)
    if v[0] == 'y':
        return c.fin(v)
    if v[0] == 'c' and v[1] == 'map' and c.f[3]:
        t = c.f[3][0]
        return c.fin(('it', 'mapown', v[2], targ(t, 0), targ(t, 1), 'drain', v[4]))
    it = as_it(e, st, v)
    if it is None:
        return c.fin(v)
    return c.fin(it)


@model('std::collections::HashMap::into_values', 'std::collections::HashMap::into_keys')
def i_intovals(c):
    v = c.a[0]
    if v[0] != 'c':
        return NotImplemented
    return c.fin(('it', 'mapown', v[2], c.f[3][0], c.f[3][1], 'values' if 'values' in c.name else 'keys', v[4]))


@itfn('map', 'filter', 'inspect', 'filter_map', 'take_while', 'map_while')
def i_map(c):
    it = as_it(c.e, c.st, c.a[0]) or ('it', 'unk', c.a[0])
    return c.fin(('it', c.name.split('::')[-1], it, c.a[1]))


@itfn('rev', 'cloned', 'copied', 'fuse', 'by_ref', 'peekable')
def i_rev(c):
    op = c.name.split('::')[-1]
    if op == 'by_ref':
        return c.fin(c.a[0])
    it = as_it(c.e, c.st, c.a[0]) or ('it', 'unk', c.a[0])
    if op in ('fuse', 'peekable'):
        return c.fin(it)
    return c.fin(('it', op, it))


@itfn('take', 'skip', 'step_by')
def i_take(c):
    op = c.name.split('::')[-1]
    it = as_it(c.e, c.st, c.a[0]) or ('it', 'unk', c.a[0])
    if op == 'step_by':
        return c.fin(('it', 'unk', it))
    return c.fin(('it', op, it, c.a[1]))


@itfn('enumerate')
def i_enum(c):
    it = as_it(c.e, c.st, c.a[0]) or ('it', 'unk', c.a[0])
    return c.fin(('it', 'enum', it, ('n', L.ZERO)))


@itfn('chain', 'zip')
def i_chain(c):
    a = as_it(c.e, c.st, c.a[0]) or ('it', 'unk', c.a[0])
    b = as_it(c.e, c.st, c.a[1]) or ('it', 'unk', c.a[1])
    return c.fin(('it', c.name.split('::')[-1], a, b))


def itlen(it):
    if it[1] == 'own':
        return clen(it[2])
    if it[1] == 'ref':
        return L.sub(it[4][1], it[3][1])
    if it[1] == 'range' and it[3] is not None:
        return L.sub(it[3][1], it[2][1])
    if it[1] in ('mapown', 'mapref'):
        return it[2][1]
    if it[1] in ('map', 'inspect', 'rev', 'cloned', 'copied', 'enum'):
        return itlen(it[2])
    return None


@itfn('len', 'size_hint', 'is_empty')
def i_len(c):
    e, st = c.e, c.st
    r, v = strip_refs(e, st, c.a[0])
    it = as_it(e, st, v)
    n = itlen(it) if it is not None else None
    n = ('n', n) if n is not None else e.fresh_int(st)
    op = c.name.split('::')[-1]
    if op == 'len':
        return c.fin(n)
    if op == 'is_empty':
        return c.fin(('b', ('not', ('ge', ('n', L.addc(n[1], -1))))))
    return c.fin(S(('tuple', ()), 0, n, e.fresh(st, adt(OPTION, ('int', 'usize')))))


@model('std::iter::empty')
def i_empty(c):
    return c.fin(('it', 'own', cont('vec'), 'into'))


@model('std::iter::once')
def i_once(c):
    return c.fin(('it', 'once', c.a[0]))


def drive(c, it, mode, acc):
    st = c.st
    spush(st, 'iter', 0, (it, mode, acc, None, ()), c.dest, c.sp)
    return [st]


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def i_collect(c):
    e, st = c.e, c.st
    v = c.a[0]
    it = as_it(e, st, v)
    if it is None:
        return c.fin(e.fresh(st, c.ty))
    t = c.ty
    n = t[1] if t[0] == 'adt' else ''
    if n in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        kind = 'vec' if n.endswith('Vec') else 'deque'
        if it[1] == 'own':
            return c.fin(('c', kind, it[2][2], None, it[2][4]))
        if it[1] == 'mapown' and focus(st) is not None and it[6][0] == 'map':
            # what a map held, in some order: kept as the map it came from
            return c.fin(('c', 'map:' + ('into' if it[5] == 'drain' else it[5]), it[2], None, it[6]))
        return drive(c, it, ('collect', None, targ(t, 0)), cont(kind, L.ZERO, None, ('empty',) if targ(t, 0) != ('int', 'u8') else ('bytes', 'junk')))
    if n in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
        return drive(c, it, ('collectmap', None), cont('map', L.ZERO, None, ('map', ())))
    if n == RESULT:
        return drive(c, it, ('collectres', None), cont('vec'))
    return c.fin(e.fresh(st, t))


@model('std::iter::Extend::extend', 'std::vec::Vec::extend', 'std::collections::VecDeque::extend')
def i_extend(c):
    e, st = c.e, c.st
    r, v = strip_refs(e, st, c.a[0])
    it = as_it(e, st, c.a[1])
    if it is None or v[0] != 'c' or r[0] != 'r':
        return NotImplemented
    if it[1] == 'own' and v[4][0] != 'map':
        nv = concat(e, st, v, it[2])
        e.store(st, r[1], nv)
        return c.fin(U)
    if v[4][0] == 'map':
        return NotImplemented
    return drive(c, it, ('extend', r), U)


@itfn('sum', 'count', 'for_each', 'any', 'all', 'position', 'find', 'find_map', 'fold', 'last', 'try_for_each')
def i_drive(c):
    e, st = c.e, c.st
    if local_iter(c):
        return None
    op = c.name.split('::')[-1]
    it = as_it(e, st, c.a[0])
    if it is None:
        return NotImplemented
    if op == 'fold':
        return drive(c, it, ('fold', c.a[2]), c.a[1])
    if op in ('sum', 'count', 'position'):
        return drive(c, it, (op, c.a[1] if len(c.a) > 1 else None), ('n', L.ZERO))
    if op == 'last':
        return drive(c, it, (op, None), none())
    return drive(c, it, (op, c.a[1]), U)
