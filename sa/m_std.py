"""core/alloc/std models"""
import lin as L
from eng import U, MOVED, TRUE, FALSE, Frame, SFrame
from models import (model, PREFIX, C, S, some, none, ok, err, ready, pending, targ, deref, strip_refs, cont, clen,
                    with_, take, put, classify, get_cap, elem_load, adt, OPTION, RESULT, POLL, havoc_ref, spush, mk_item, ctx_ref,
                    TABLE)


def slice_of(e, st, r, mut=False):
    """slice value for a reference to a container (or a slice)"""
    if r[0] == 'sl':
        return r
    v = e.load(st, r[1])
    while v[0] == 'r':
        r = v
        v = e.load(st, r[1])
    if v[0] == 'sl':
        return v
    if v[0] == 'c':
        return ('sl', r[1], ('n', L.ZERO), v[2], 'wm' if mut else 'w')
    if v[0] == 'ios':
        return v[1]
    return None


def sl_len(s):
    return L.sub(s[3][1], s[2][1])


# ---------------------------------------------------------------- pointers
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
       'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut')
def m_deref(c):
    r = c.a[0]
    mut = c.name.endswith('mut')
    if r[0] == 'sl':
        return c.fin(r)
    x = deref(c.e, c.st, r)
    if x[0] in ('r', 'sl'):
        return c.fin(x)
    if x[0] == 'c':
        return c.fin(('sl', r[1], ('n', L.ZERO), x[2], 'wm' if mut else 'w'))
    if x[0] == 'guard':
        return c.fin(x[2])
    if x[0] == 'ios':
        return c.fin(x[1])
    if x[0] == 'k':
        return c.fin(x)
    if x[0] == 'y':
        key = (x[1], '*')
        v = c.st.child.get(key)
        if v is None:
            v = c.e.fresh(c.st, c.ty)
            c.st.child[key] = v
        return c.fin(v)
    return c.fin(c.e.fresh(c.st, c.ty))


@model('std::pin::Pin::as_mut', 'std::pin::Pin::as_ref')
def m_pin_as_mut(c):
    return c.fin(deref(c.e, c.st, c.a[0]))


@model('std::pin::Pin::new', 'std::pin::Pin::new_unchecked', 'std::pin::pin_new_unchecked_in_helper', 'std::pin::Pin::get_mut', 'std::pin::Pin::into_inner',
       'std::pin::Pin::get_unchecked_mut', 'std::pin::Pin::get_ref', 'std::pin::Pin::into_ref', 'std::convert::identity',
       'std::hint::black_box', 'std::future::IntoFuture::into_future', 'std::mem::ManuallyDrop::new',
       'std::convert::Into::into@id')
def m_ident(c):
    return c.fin(c.a[0])


@model('std::pin::Pin::set')
def m_pin_set(c):
    p = deref(c.e, c.st, c.a[0])
    if p[0] != 'r':
        return NotImplemented
    c.put(p, c.a[1])
    return c.fin(U)


@model('std::sync::Arc::new', 'std::boxed::Box::new', 'std::rc::Rc::new', 'std::boxed::Box::pin')
def m_arc_new(c):
    if 'Arc' not in c.name:
        return NotImplemented if False else c.fin(('r', ('loc', c.e.newcell(c.st, c.a[0]), ()), 'box'))
    cell = c.e.newcell(c.st, c.a[0])
    return c.fin(('r', ('loc', cell, ()), 'arc'))


@model('std::sync::Arc::ptr_eq')
def m_arc_eq(c):
    a, b = deref(c.e, c.st, c.a[0]), deref(c.e, c.st, c.a[1])
    if a == b:
        return c.fin(TRUE)
    return c.fin(c.e.fresh(c.st, ('bool',)))


@model('std::sync::Arc::clone')
def m_arc_clone(c):
    return c.fin(deref(c.e, c.st, c.a[0]))


@model('std::clone::Clone::clone')
def m_clone(c):
    e, st = c.e, c.st
    if c.f[4] and c.f[4] in e.prog.bodies:
        return None   # local derive
    x = deref(e, st, c.a[0])
    if x[0] in ('n', 'b', 'u', 'k', 'fn', 'r', 'sl'):
        return c.fin(x)
    if x[0] == 'y':
        p = st.prov.get(x[1])
        if p and p[0] in ('tx', 'waker', 'handle'):
            y = e.opaque(x[2])
            st.prov[y[1]] = p
            return c.fin(y)
        if p and p[0] == 'item':
            y = e.opaque(x[2])
            st.prov[y[1]] = ('copy', p)
            return c.fin(y)
        if is_copyish(x[2]):
            return c.fin(x)
        y = e.opaque(x[2])
        st.prov[y[1]] = ('clone', x)
        return c.fin(y)
    if x[0] == 'c':
        return c.fin(x)
    if x[0] == 's':
        return c.fin(x)
    return c.fin(e.fresh(st, c.ty))


def is_copyish(ty):
    return ty[0] in ('ref', 'int', 'bool') or (ty[0] == 'adt' and ty[1] in (
        'core::net::socket_addr::SocketAddr', 'std::io::error::ErrorKind', 'core::task::wake::Waker'))


@model('std::default::Default::default')
def m_default(c):
    if c.f[4] and c.f[4] in c.e.prog.bodies:
        return None
    t = c.ty
    return c.fin(default_of(c.e, c.st, t))


def default_of(e, st, t):
    if t[0] == 'adt':
        n = t[1]
        if n == 'alloc::vec::Vec':
            return cont('vec', L.ZERO, L.ZERO, ('empty',) if targ(t, 0) != ('int', 'u8') else ('bytes', 'junk'))
        if n == 'alloc::collections::vec_deque::VecDeque':
            return cont('deque')
        if n in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
            return empty_map(st)
        if n == 'alloc::string::String':
            return cont('str', L.ZERO, L.ZERO, ('bytes', 'junk'))
        if n in ('alloc::sync::Arc', 'alloc::rcs::arc::Arc'):
            return ('r', ('loc', e.newcell(st, default_of(e, st, targ(t, 0))), ()), 'arc')
        if n == OPTION:
            return none(t)
        if n == 'core::marker::PhantomData':
            return U
        y = e.opaque(t)
        st.prov[y[1]] = ('default',)
        return y
    if t[0] == 'int':
        return ('n', L.ZERO)
    if t[0] == 'bool':
        return FALSE
    if t[0] == 'tuple':
        if not t[1]:
            return U
        return ('s', t, 0, None, tuple((i, default_of(e, st, x)) for i, x in enumerate(t[1])))
    y = e.opaque(t)
    st.prov[y[1]] = ('default',)
    return y


@model('std::mem::swap')
def m_swap(c):
    a, b = c.a
    if a[0] != 'r' or b[0] != 'r':
        return NotImplemented
    x, y = c.e.load(c.st, a[1]), c.e.load(c.st, b[1])
    c.put(a, y)
    c.put(b, x)
    c.emit("swap", a=a[1], b=b[1])
    return c.fin(U)


@model('std::mem::replace')
def m_replace(c):
    a = c.a[0]
    if a[0] != 'r':
        return NotImplemented
    x = c.e.load(c.st, a[1])
    c.put(a, c.a[1])
    c.emit("swap", a=a[1], b=None)
    return c.fin(x)


@model('std::mem::take')
def m_take(c):
    a = c.a[0]
    if a[0] != 'r':
        return NotImplemented
    x = c.e.load(c.st, a[1])
    c.put(a, default_of(c.e, c.st, c.ty))
    c.emit("swap", a=a[1], b=None)
    return c.fin(x)


@model('std::mem::drop', 'std::mem::forget')
def m_drop(c):
    if c.name.endswith('drop'):
        sts = c.fin(U)
        out = []
        for s in sts:
            out += c.e.models.start_drop(c.e, s, c.a[0], c.sp)
        return out
    c.emit("forget", v=c.a[0])
    return c.fin(U)


@model('std::option::Option::take')
def m_opt_take(c):
    r = c.a[0]
    if r[0] != 'r':
        return NotImplemented
    x = c.e.load(c.st, r[1])
    c.put(r, none(x[1] if x[0] == 's' else x[2] if x[0] == 'y' else None))
    return c.fin(x)


@model('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::option::Option::as_deref', 'std::option::Option::as_deref_mut',
       'std::result::Result::as_ref', 'std::result::Result::as_mut')
def m_opt_as(c):
    e, st = c.e, c.st
    r = c.a[0]
    if r[0] != 'r':
        return NotImplemented
    x = e.load(st, r[1])
    isopt = 'option' in c.name
    kind = 'mut' if 'mut' in c.name else 'ref'
    outs = []
    for s, var in enum_split(e, st, x, OPTION if isopt else RESULT):
        if isopt and var == 0:
            outs.append((s, none(c.ty)))
            continue
        xx = e.load(s, r[1])
        e.proj(s, xx, (var, 0), None)
        v = ('r', ('loc', r[1][1], r[1][2] + ((var, 0),)), kind)
        outs.append((s, S(c.ty if c.ty[0] == 'adt' else adt(OPTION if isopt else RESULT), var, v)))
    return c.many(outs)


def enum_split(e, st, x, aid=None):
    """[(state, variant)] for an enum value"""
    if x[0] == 's':
        return [(st, x[2])]
    if x[0] == 'y':
        ty = x[2]
        vs = e.variants(ty)
        if vs is None and aid:
            vs = e.variants(adt(aid))
        cur = st.vf.get(x[1])
        if not isinstance(cur, frozenset):
            cur = frozenset(range(len(vs or [0])))
        out = []
        for i in sorted(cur):
            s = st.copy()
            s.vf[x[1]] = frozenset([i])
            out.append((s, i))
        return out
    return [(st, 0)]


# Clone-ish / logging / formatting are without effect on the tracked state
def pure(c):
    return c.fin(c.e.opaque(c.ty) if c.ty[0] not in ('tuple', 'bool', 'int') else c.e.fresh(c.st, c.ty))


for p in ('log::', 'std::fmt::', 'core::fmt::', 'thiserror::', 'std::backtrace', 'core::fmt', 'format_args'):
    PREFIX.append((p, pure))


# getters of values the analyses do not look into.  What they return is anything of its type; a value built from it
# again (SocketAddr::new) stays unmodelled
@model(*['std::net::' + x for x in ('SocketAddr::is_ipv4', 'SocketAddr::is_ipv6', 'IpAddr::is_loopback', 'IpAddr::is_unspecified',
                                    'IpAddr::is_multicast', 'IpAddr::is_ipv4', 'IpAddr::is_ipv6', 'Ipv4Addr::is_loopback', 'Ipv4Addr::is_private')],
       'std::time::Duration::from_secs', 'std::time::Duration::from_millis', 'std::time::Duration::from_micros', 'std::time::Duration::as_millis', 'std::time::Duration::as_secs',
       'std::time::Instant::now', 'std::time::Instant::elapsed', 'tokio::time::Instant::now', 'tokio::time::Instant::elapsed', 'tokio::runtime::Handle::metrics',
       'tokio::runtime::RuntimeMetrics::num_workers', 'tokio::runtime::RuntimeMetrics::num_alive_tasks', 'std::time::SystemTime::now', 'std::io::Error::raw_os_error',
       'tokio::net::TcpListener::local_addr', 'tokio::net::TcpStream::local_addr')
def getter(c):
    return c.fin(c.e.fresh(c.st, c.ty))


@model('std::net::SocketAddr::ip', 'std::net::SocketAddr::port')
def sa_part(c):
    y = strip_refs(c.e, c.st, c.a[0])[1]
    op = c.name.split('::')[-1]
    if y[0] != 'y':
        return c.fin(c.e.fresh(c.st, c.ty))
    k = (y[1], 'sa' + op)
    if k not in c.st.child:
        v = c.e.fresh(c.st, c.ty) if op == 'port' else c.e.opaque(c.ty)
        c.st.child[k] = v
        if op == 'ip':
            c.st.prov[v[1]] = ('ipof', y)
    return c.fin(c.st.child[k])


def sa_join(e, st, ip, port):
    """the address these are the parts of, or None"""
    p = st.prov.get(ip[1]) if ip[0] == 'y' else None
    if p and p[0] == 'ipof' and port[0] == 'n':
        q = st.child.get((p[1][1], 'saport'))
        if q is not None and q[0] == 'n' and e.entails_eq(st, L.sub(q[1], port[1])):
            return p[1]
    return None


@model('std::net::SocketAddr::new')
def sa_new(c):
    a = sa_join(c.e, c.st, c.a[0], c.a[1])
    if a is None and not (c.a[0][0] == 'y' and (c.st.prov.get(c.a[0][1]) or ('',))[0] == 'ipof'):
        return NotImplemented
    return c.fin(a or c.e.opaque(c.ty))


@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
def m_ord(c):
    if c.f[3] and c.f[3][0][0] == 'adt' and c.f[3][0][1].startswith('log::'):
        return c.fin(FALSE)      # logging disabled: log statements have no effect on behaviour
    a, b = strip_refs(c.e, c.st, c.a[0])[1], strip_refs(c.e, c.st, c.a[1])[1]
    if a[0] == 'n' and b[0] == 'n':
        o = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[c.name.split('::')[-1]]
        return c.fin(('b', c.e.compare(c.st, o, a, b)))
    return c.fin(c.e.fresh(c.st, ('bool',)))


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(c):
    e, st = c.e, c.st
    neg = c.name.endswith('ne')
    a, b = strip_refs(e, st, c.a[0])[1], strip_refs(e, st, c.a[1])[1]

    def res(x):
        if isinstance(x, bool):
            return c.fin(('b', x != neg))
        return c.fin(('b', ('not', x) if neg else x))
    if a[0] == 'n' and b[0] == 'n':
        return res(e.compare(st, 'Eq', a, b))
    if a[0] == 'b' and b[0] == 'b':
        return res(e.compare(st, 'Eq', a, b))
    ta = a[1] if a[0] == 's' else a[2] if a[0] == 'y' else None
    vs = e.variants(ta)
    if vs and all(not v[2] for v in vs) and a[0] in ('s', 'y') and b[0] in ('s', 'y'):
        if a[0] == 's' and b[0] == 's':
            return res(a[2] == b[2])
        if a[0] == 'y' and b[0] == 'y':
            if a[1] == b[1]:
                return res(True)
        else:
            if a[0] == 's':
                a, b = b, a
            return res(('isv', a, frozenset([b[2]])))
    if c.f[4] and c.f[4] in e.prog.bodies and not neg:
        return None
    if a == b and a[0] == 'y':
        return res(True)
    return res(('sym', ('bs', e.newsym())))


@model('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max')
def m_minmax(c):
    e, st = c.e, c.st
    a, b = c.a
    if a[0] != 'n' or b[0] != 'n':
        return c.fin(e.fresh(st, c.ty))
    mx = 'max' in c.name
    s2 = st.copy()
    outs = []
    for s in e.assume(st, ('ge', ('n', L.sub(b[1], a[1]))), True):
        outs.append((s, b if mx else a))
    for s in e.assume(s2, ('ge', ('n', L.sub(b[1], a[1]))), False):
        outs.append((s, a if mx else b))
    return c.many(outs)


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_discval(c):
    x = strip_refs(c.e, c.st, c.a[0])[1]
    return c.fin(c.e.disc(c.st, x, x[1] if x[0] == 's' else x[2] if x[0] == 'y' else ('?',)))


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(c):
    e, st = c.e, c.st
    a, b = (strip_refs(e, st, x)[1] for x in c.a[:2])
    if a[0] != 'n' or b[0] != 'n':
        return NotImplemented
    d = L.sub(a[1], b[1])
    part = c.name.endswith('partial_cmp')
    ot = targ(c.ty, 0) if part else c.ty
    outs = []
    for i, ok_ in ((0, lambda s: e.assume_ge(s, L.addc(L.neg(d), -1))), (1, lambda s: e.assume_ge(s, d) and e.assume_ge(s, L.neg(d))), (2, lambda s: e.assume_ge(s, L.addc(d, -1)))):
        s = st.copy()
        if ok_(s):
            v = ('s', ot, i, None, ())
            outs.append((s, some(v, c.ty) if part else v))
    return c.many(outs)


@model(*['std::cmp::Ordering::' + x for x in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne', 'reverse')])
def m_ordering(c):
    v = strip_refs(c.e, c.st, c.a[0])[1]
    if v[0] != 's':
        return NotImplemented
    op, i = c.name.split('::')[-1], v[2]
    if op == 'reverse':
        return c.fin(('s', v[1], 2 - i, None, ()))
    return c.fin(('b', i in {'is_lt': (0,), 'is_le': (0, 1), 'is_gt': (2,), 'is_ge': (1, 2), 'is_eq': (1,), 'is_ne': (0, 2)}[op]))


@model('std::ops::Range::is_empty', 'std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::RangeTo::contains', 'std::ops::RangeFrom::contains',
       'std::ops::RangeToInclusive::contains')
def m_range(c):
    e, st = c.e, c.st
    r = strip_refs(e, st, c.a[0])[1]
    if r[0] != 's':
        return NotImplemented
    f, kind, ge = dict(r[4]), c.name.split('::')[-2], lambda l: ('ge', ('n', e.N(st, l)))
    lo = None if kind.startswith('RangeTo') else f.get(0)
    hi = None if kind == 'RangeFrom' else f.get(0 if kind.startswith('RangeTo') else 1)
    if any(x is not None and x[0] != 'n' for x in (lo, hi)) or lo is None and hi is None:
        return NotImplemented
    if c.name.endswith('is_empty'):
        want = ge(L.sub(lo[1], hi[1]))
    else:
        v = strip_refs(e, st, c.a[1])[1]
        if v[0] != 'n':
            return NotImplemented
        a = None if lo is None else ge(L.sub(v[1], lo[1]))
        b = None if hi is None else ge(L.sub(hi[1], v[1]) if 'Inclusive' in kind else L.addc(L.sub(hi[1], v[1]), -1))
        want = a if b is None else b if a is None else ('and', a, b)
    outs = []
    for t in (True, False):
        for s in e.assume(st.copy(), want, t):
            outs.append((s, ('b', t)))
    return c.many(outs)


INTFN = ('core::num::<impl usize>::', 'core::num::<impl u32>::', 'core::num::<impl u64>::', 'core::num::<impl u8>::', 'core::num::<impl u16>::')


def m_int(c):
    e, st = c.e, c.st
    w = c.name.split('<impl ')[1].split('>')[0]
    op = c.name.split('::')[-1]
    mx = 2 ** {'u8': 8, 'u16': 16, 'u32': 32}.get(w, 64) - 1
    a = c.a
    if op in ('saturating_sub', 'checked_sub', 'wrapping_sub', 'abs_diff', 'overflowing_sub') and a[0][0] == 'n' and a[1][0] == 'n':
        d = L.sub(a[0][1], a[1][1])
        s2 = st.copy()
        outs = []
        for s in e.assume(st, ('ge', ('n', d)), True):
            outs.append((s, some(('n', d), c.ty) if op == 'checked_sub' else ('n', d)))
        for s in e.assume(s2, ('ge', ('n', d)), False):
            if op == 'checked_sub':
                v = none(c.ty)
            elif op == 'saturating_sub':
                v = ('n', L.ZERO)
            elif op == 'abs_diff':
                v = ('n', L.neg(d))
            else:
                v = e.fresh_int(s, w)
            outs.append((s, v))
        if op == 'overflowing_sub':
            return NotImplemented
        return c.many(outs)
    if op in ('saturating_add', 'checked_add', 'wrapping_add', 'saturating_mul', 'checked_mul', 'wrapping_mul') and a[0][0] == 'n' and a[1][0] == 'n':
        if op.endswith('add'):
            r = L.add(a[0][1], a[1][1])
        elif L.is_const(e.N(st, a[1][1])):
            r = L.scale(a[0][1], e.N(st, a[1][1])[0])
        elif L.is_const(e.N(st, a[0][1])):
            r = L.scale(a[1][1], e.N(st, a[0][1])[0])
        else:
            return NotImplemented
        s2 = st.copy()
        outs = []
        for s in e.assume(st, ('ge', ('n', L.sub(L.const(mx), r))), True):
            outs.append((s, some(('n', r), c.ty) if op.startswith('checked') else ('n', r)))
        if w in ('u8', 'u16', 'u32') or op.startswith('checked') and False:
            for s in e.assume(s2, ('ge', ('n', L.sub(L.const(mx), r))), False):
                v = none(c.ty) if op.startswith('checked') else (('n', L.const(mx)) if op.startswith('saturating') else e.fresh_int(s, w))
                outs.append((s, v))
        elif op.startswith('checked'):
            s2.flags = s2.flags | {'huge'}
            outs.append((s2, none(c.ty)))
        elif op.startswith('saturating'):
            v = e.fresh_int(s2, w)
            e.assume_ge(s2, L.addc(v[1], -2**63))
            s2.flags = s2.flags | {'huge'}
            if not c.e.__dict__.get('nohuge'):
                outs.append((s2, v))
        return c.many(outs)
    if op in ('min', 'max', 'clamp'):
        return NotImplemented
    return c.fin(e.fresh(st, c.ty))


for p in INTFN:
    PREFIX.append((p, m_int))


SEQKIND = {'alloc::vec::Vec': 'vec', 'alloc::collections::vec_deque::VecDeque': 'deque'}


@model('std::convert::From::from', 'std::convert::Into::into', 'std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_from(c):
    e, st = c.e, c.st
    if c.f[4] and c.f[4] in e.prog.bodies:
        b = e.prog.bodies[c.f[4]]
        if not b.ext:
            return None
    v = c.a[0]
    if c.name.endswith('::from') or c.name.endswith('::into'):
        if v[0] == 'n' and c.ty[0] == 'int':
            return c.fin(v)
        # reflexive
        vt = v[2] if v[0] == 'y' else v[1] if v[0] == 's' else None
        if vt == c.ty or c.ty[0] in ('param', 'alias'):
            return c.fin(v)
        if v[0] == 'c' and c.ty[0] == 'adt' and c.ty[1] in SEQKIND:
            return c.fin(('c', SEQKIND[c.ty[1]]) + v[2:])
        # local From impl
        if c.ty[0] == 'adt':
            for im in e.prog.impls:
                if im["tr"].endswith('convert::From') and im["self"][0] == 'adt' and im["self"][1] == c.ty[1]:
                    bid = im["items"].get(("fn", "from"))
                    src = im["a"][1] if len(im["a"]) > 1 else None
                    if bid in e.prog.bodies and src is not None and vt is not None and src[0] == vt[0] and (src[0] != 'adt' or src[1] == vt[1]):
                        e.push(st, e.prog.bodies[bid], [v], c.dest, {}, c.sp)
                        return [st]
        return c.fin(e.fresh(st, c.ty))
    if v[0] == 'n':
        okv = st.copy()
        tt = targ(c.ty, 0)
        outs = [(okv, ok(v, c.ty))]
        outs.append((st, err(e.fresh(st, targ(c.ty, 1)), c.ty)))
        return c.many(outs)
    return c.fin(e.fresh(st, c.ty))


@model('std::result::Result::expect', 'std::result::Result::unwrap')
def m_expect(c):
    e, st = c.e, c.st
    x = c.a[0]
    outs = []
    for s, var in enum_split(e, st, x, RESULT):
        if var == 0:
            outs.append((s, e.proj(s, x, (0, 0), c.ty)))
        else:
            e.emit(s, "panic", kind="expect", span=c.sp, ops=[], d=len(s.fr) - 1)
    return c.many(outs)


@model('std::option::Option::expect', 'std::option::Option::unwrap')
def m_oexpect(c):
    e, st = c.e, c.st
    x = c.a[0]
    outs = []
    for s, var in enum_split(e, st, x, OPTION):
        if var == 1:
            outs.append((s, e.proj(s, x, (1, 0), c.ty)))
        else:
            e.emit(s, "panic", kind="unwrap", span=c.sp, ops=[], d=len(s.fr) - 1)
    return c.many(outs)


# ---------------------------------------------------------------- Vec / VecDeque / slices
def cref(c, i=0):
    """(ref, container) of arg i, following && ; None if untracked"""
    r = c.a[i]
    v = r
    while v[0] == 'r':
        r = v
        v = c.e.load(c.st, v[1])
    if v[0] == 'c':
        return r, v
    return None


def seqfn(*names):
    full = []
    for n in names:
        full += ['std::vec::Vec::' + n, 'std::collections::VecDeque::' + n, 'core::slice::<impl [T]>::' + n, 'std::slice::<impl [T]>::' + n,
                 'std::string::String::' + n, 'core::str::<impl str>::' + n]
    return model(*full)


@seqfn('new')
def v_new(c):
    return c.fin(default_of(c.e, c.st, c.ty))


@seqfn('with_capacity')
def v_wc(c):
    e, st = c.e, c.st
    d = default_of(e, st, c.ty)
    if d[0] != 'c' or c.a[0][0] != 'n':
        return c.fin(d)
    k = e.fresh_int(st)
    st.cons = st.cons + (L.sub(k[1], c.a[0][1]),)
    return c.fin(with_(d, cap=k))


@model('std::vec::from_elem', 'alloc::vec::from_elem')
def v_from_elem(c):
    e, st = c.e, c.st
    d = default_of(e, st, c.ty)
    if d[0] != 'c' or d[4] != ('bytes', 'junk') or c.a[1][0] != 'n':
        return c.fin(e.fresh(st, c.ty))
    return c.fin(with_(d, n=c.a[1][1], cap=c.a[1]))


@seqfn('len')
def v_len(c):
    if c.a[0][0] == 'sl':
        return c.fin(('n', sl_len(c.a[0])))
    r = cref(c)
    if r is None:
        v = strip_refs(c.e, c.st, c.a[0])[1]
        if v[0] == 'sl':
            return c.fin(('n', sl_len(v)))
        return c.fin(c.e.fresh_int(c.st))
    r, v = r
    if r[1][2] and r[1][2][-1][0] == 'e':
        v = materialize(c.e, c.st, r[1])
    return c.fin(v[2])


def materialize(e, st, loc):
    """pin down the element value at loc (front element of a stream queue) so its length is stable"""
    v = e.load(st, loc)
    q = ('loc', loc[1], loc[2][:-1])
    qc = e.load(st, q)
    ix = loc[2][-1][1]
    if qc[0] == 'c' and qc[4][0] == 'seq' and qc[4][1][0] == 'encq' and ix[0] == 'n' and qc[4][3] == '+':
        if e.entails_eq(st, ix[1]):
            if qc[4][4] is None:
                e.store(st, q, with_(qc, content=qc[4][:4] + (v,)))
            else:
                v = qc[4][4]
    return v


@seqfn('is_empty')
def v_isempty(c):
    if c.a[0][0] == 'sl':
        n = sl_len(c.a[0])
    else:
        r = cref(c)
        if r is None:
            return c.fin(c.e.fresh(c.st, ('bool',)))
        n = clen(r[1])
    n = c.e.N(c.st, n)
    if not n[1]:
        return c.fin(('b', n[0] == 0))
    return c.fin(('b', ('not', ('ge', ('n', L.addc(n, -1))))))


@seqfn('capacity')
def v_cap(c):
    r = cref(c)
    if r is None:
        return c.fin(c.e.fresh_int(c.st))
    v = get_cap(c.e, c.st, r[0][1], r[1])
    return c.fin(v[3])


@seqfn('push', 'push_back', 'push_front', 'push_str')
def v_push(c):
    r = cref(c)
    if r is None:
        return NotImplemented
    r, v = r
    end = 'front' if c.name.endswith('push_front') else 'back'
    if v[4][0] == 'bytes' or c.name.endswith('push_str'):
        n = c.e.fresh_int(c.st)
        c.st.cons = c.st.cons + (L.sub(n[1], clen(v)),)
        c.put(r, ('c', v[1], n, None, ('bytes', 'junk')))
        return c.fin(U)
    x = c.e.adjust(c.st, "push", c.a[1], old=v, end=end)
    nv = put(c.e, c.st, v, x, end)
    c.put(r, nv)
    c.emit("push", loc=r[1], v=x, end=end, old=v, new=nv)
    return c.fin(U)


@seqfn('pop', 'pop_back', 'pop_front')
def v_pop(c):
    r = cref(c)
    if r is None:
        return NotImplemented
    r, v = r
    e = c.e
    end = 'front' if c.name.endswith('pop_front') else 'back'
    s2 = c.st.copy()
    outs = []
    n = clen(v)
    for s in e.assume(s2, ('eq', ('n', n)), True):
        e.store(s, r[1], with_(v, L.ZERO, ('empty',) if v[4][0] != 'bytes' else v[4]))
        c.emit("pop_empty", s, loc=r[1])
        outs.append((s, none(c.ty)))
    for s in e.assume(c.st, ('ge', ('n', L.addc(n, -1))), True):
        x, nv = take(e, s, v, end)
        if x is None:
            x = e.fresh(s, targ(c.ty, 0))
        elif x[0] == 'y' and x[2] == ('?',):
            x = retype(s, x, targ(c.ty, 0))
        e.store(s, r[1], nv)
        for s in e.models.born(e, s, x):
            c.emit("pop", s, loc=r[1], v=x, end=end, old=v, new=nv)
            outs.append((s, some(x, c.ty)))
    return c.many(outs)


def retype(st, y, ty):
    return ('y', y[1], ty)


@seqfn('front', 'back', 'front_mut', 'back_mut', 'first', 'last', 'first_mut', 'last_mut')
def v_front(c):
    e = c.e
    base = c.a[0]
    op = c.name.split('::')[-1]
    kind = 'mut' if 'mut' in op else 'ref'
    if base[0] == 'sl':
        loc, lo, hi = base[1], base[2][1], base[3][1]
    else:
        r = cref(c)
        if r is None:
            return NotImplemented
        loc, lo, hi = r[0][1], L.ZERO, clen(r[1])
    s2 = c.st.copy()
    outs = []
    n = L.sub(hi, lo)
    for s in e.assume(s2, ('eq', ('n', n)), True):
        outs.append((s, none(c.ty)))
    for s in e.assume(c.st, ('ge', ('n', L.addc(n, -1))), True):
        ix = lo if op.startswith('f') else L.addc(hi, -1)
        l2 = ('loc', loc[1], loc[2] + (('e', ('n', ix)),))
        materialize(e, s, l2)
        outs.append((s, some(('r', l2, kind), c.ty)))
    return c.many(outs)


@seqfn('get', 'get_mut')
def v_get(c):
    e = c.e
    base = c.a[0]
    kind = 'mut' if c.name.endswith('mut') else 'ref'
    if base[0] == 'sl':
        loc, lo, hi = base[1], base[2][1], base[3][1]
    else:
        r = cref(c)
        if r is None:
            return NotImplemented
        loc, lo, hi = r[0][1], L.ZERO, clen(r[1])
    ix = c.a[1]
    if ix[0] == 'n':
        s2 = c.st.copy()
        outs = []
        inb = L.addc(L.sub(L.sub(hi, lo), ix[1]), -1)
        for s in e.assume(s2, ('ge', ('n', inb)), False):
            outs.append((s, none(c.ty)))
        for s in e.assume(c.st, ('ge', ('n', inb)), True):
            l2 = ('loc', loc[1], loc[2] + (('e', ('n', L.add(lo, ix[1]))),))
            materialize(e, s, l2)
            outs.append((s, some(('r', l2, kind), c.ty)))
        return c.many(outs)
    rg = range_of(e, c.st, ix, L.sub(hi, lo))
    if rg is None:
        return c.fin(e.fresh(c.st, c.ty))
    a, b = rg
    s2 = c.st.copy()
    outs = [(s2, none(c.ty))]
    if e.assume_ge(c.st, L.sub(b, a)) and e.assume_ge(c.st, L.sub(L.sub(hi, lo), b)):
        outs.append((c.st, some(('sl', loc, ('n', L.add(lo, a)), ('n', L.add(lo, b)), 'm' if kind == 'mut' else ''), c.ty)))
    if e.entails_ge(c.st, L.ZERO) and e.entails_ge(s2, L.sub(b, a)) and e.entails_ge(s2, L.sub(L.sub(hi, lo), b)):
        outs = outs[1:]
    return c.many(outs)


def range_of(e, st, v, n):
    """(lo, hi) of a range value; n is the length for open ends"""
    if v[0] == 's' and v[1][0] == 'adt':
        t = v[1][1].split('::')[-1]
        f = dict(v[4])
        if t == 'Range':
            if f[0][0] == 'n' and f[1][0] == 'n':
                return f[0][1], f[1][1]
        elif t == 'RangeFrom':
            if f[0][0] == 'n':
                return f[0][1], n
        elif t == 'RangeTo':
            if f[0][0] == 'n':
                return L.ZERO, f[0][1]
        elif t == 'RangeToInclusive':
            if f[0][0] == 'n':
                return L.ZERO, L.addc(f[0][1], 1)
        elif t == 'RangeFull':
            return L.ZERO, n
        elif t == 'RangeInclusive':
            if f.get(0, U)[0] == 'n' and f.get(1, U)[0] == 'n':
                return f[0][1], L.addc(f[1][1], 1)
    if v[0] == 'k' or v[0] == 'y' and v[2][0] == 'adt' and v[2][1].endswith('RangeFull'):
        return L.ZERO, n
    if v[0] == 'it' and v[1] == 'range':
        return v[2][1], v[3][1]
    return None


@model('std::ops::RangeInclusive::new')
def m_rangeincl(c):
    return c.fin(('s', c.ty, 0, None, ((0, c.a[0]), (1, c.a[1]))))


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def v_index(c):
    e, st = c.e, c.st
    base = c.a[0]
    mut = c.name.endswith('mut')
    if base[0] == 'sl':
        loc, lo, hi = base[1], base[2][1], base[3][1]
    else:
        r = cref(c)
        if r is None:
            v = strip_refs(e, st, base)[1]
            if v[0] == 'sl':
                base = v
                loc, lo, hi = base[1], base[2][1], base[3][1]
            elif v[0] == 'ios':
                base = v[1]
                loc, lo, hi = base[1], base[2][1], base[3][1]
            else:
                return c.fin(e.fresh(st, c.ty))
        else:
            if r[1][1] == 'map':
                return c.fin(e.fresh(st, c.ty))
            loc, lo, hi = r[0][1], L.ZERO, clen(r[1])
            if loc[2] and loc[2][-1][0] == 'e':
                hi = clen(materialize(e, st, loc))
    n = L.sub(hi, lo)
    ix = c.a[1]
    if ix[0] == 'n':
        chk(c, L.addc(L.sub(n, ix[1]), -1), "index out of bounds")
        if not e.assume_ge(st, L.addc(L.sub(n, ix[1]), -1)):
            return []
        l2 = ('loc', loc[1], loc[2] + (('e', ('n', L.add(lo, ix[1]))),))
        materialize(e, st, l2)
        return c.fin(('r', l2, 'mut' if mut else 'ref'))
    rg = range_of(e, st, ix, n)
    if rg is None:
        return c.fin(e.fresh(st, c.ty))
    a, b = rg
    chk(c, L.sub(b, a), "slice start after its end")
    chk(c, L.sub(n, b), "slice end beyond the length")
    if not (e.assume_ge(st, L.sub(b, a)) and e.assume_ge(st, L.sub(n, b))):
        return []
    return c.fin(('sl', loc, ('n', L.add(lo, a)), ('n', L.add(lo, b)), 'm' if mut else ''))


def chk(c, l, what):
    """obligation: l >= 0, otherwise the call panics"""
    e, st = c.e, c.st
    if not e.entails_ge(st, l):
        e.emit(st, "panic", kind="bounds:" + what, span=c.sp, ops=[], d=len(st.fr) - 1, lin=e.N(st, l))
    else:
        e.emit(st, "proved", what=what, span=c.sp)


@seqfn('clear')
def v_clear(c):
    r = cref(c)
    if r is None:
        return NotImplemented
    c.emit("clear", loc=r[0][1], old=r[1])
    if r[1][1] == 'map':
        c.put(r[0], with_(r[1], L.ZERO, ('map', ())))
    else:
        c.put(r[0], with_(r[1], L.ZERO, ('empty',) if r[1][4][0] != 'bytes' else ('bytes', 'junk')))
    return c.fin(U)


@seqfn('truncate')
def v_trunc(c):
    r = cref(c)
    if r is None or c.a[1][0] != 'n':
        return NotImplemented
    r, v = r
    e = c.e
    k = c.a[1][1]
    s2 = c.st.copy()
    outs = []
    for s in e.assume(s2, ('ge', ('n', L.sub(k, clen(v)))), True):
        if v[4][0] == 'bytes' and e.entails_eq(s, clen(v)):
            e.store(s, r[1], with_(v, L.ZERO, ('bytes', 'junk')))
        outs.append((s, U))
    for s in e.assume(c.st, ('ge', ('n', L.sub(k, clen(v)))), False):
        ct = v[4]
        if ct[0] == 'bytes':
            ct = trim_bytes(e, s, ct, k)
        elif ct[0] == 'seq':
            if e.entails_eq(s, k):
                ct = ('empty',)
            elif ct[3] == '-':
                ct = ('seq', ct[1], ('n', L.add(ct[2][1], L.sub(clen(v), k))), '-', None)
        elif ct[0] == 'list':
            ct = ('unk',)
        c.emit("clear", s, loc=r[1], old=v)
        e.store(s, r[1], with_(v, k, ct))
        outs.append((s, U))
    return c.many(outs)


def trim_bytes(e, st, ct, k):
    """content of a byte buffer cut to length k"""
    b = ct[1]
    if isinstance(b, tuple) and b[0] == 'win':
        if e.entails_ge(st, L.sub(k, b[4][1])):
            return ct
        return ('bytes', ('win', b[1], b[2], b[3], ('n', k)))
    return ('bytes', 'junk')


@seqfn('reserve', 'reserve_exact')
def v_reserve(c):
    r = cref(c)
    if r is None:
        return NotImplemented
    r, v = r
    e, st = c.e, c.st
    if c.a[1][0] == 'n':
        k = e.fresh_int(st)
        st.cons = st.cons + (L.sub(k[1], L.add(clen(v), c.a[1][1])),)
        if v[3] is not None:
            st.cons = st.cons + (L.sub(k[1], v[3][1]),)
        c.emit("grow", loc=r[1], c=v, by=c.a[1][1])
        c.put(r, with_(v, cap=k))
    return c.fin(U)


@seqfn('shrink_to_fit', 'shrink_to')
def v_shrink(c):
    r = cref(c)
    if r is None:
        return NotImplemented
    c.put(r[0], with_(r[1], cap=None))
    return c.fin(U)


@seqfn('set_len')
def v_setlen(c):
    r = cref(c)
    if r is None or c.a[1][0] != 'n':
        return NotImplemented
    r, v = r
    e, st = c.e, c.st
    k = c.a[1][1]
    okc = (v[3] is not None and e.entails_ge(st, L.sub(v[3][1], k))) or e.entails_ge(st, L.sub(clen(v), k))
    c.emit("set_len", loc=r[1], c=v, n=k, ok=okc)
    ct = v[4]
    if e.entails_ge(st, L.sub(clen(v), k)):
        if ct[0] == 'bytes':
            ct = trim_bytes(e, st, ct, k)
        elif e.entails_eq(st, k):
            ct = ('empty',)
        else:
            ct = ('unk',)
    elif ct[0] != 'bytes':
        ct = ('unk',)
    elif not (isinstance(ct[1], tuple) and ct[1][0] in ('win', 'frame')):
        ct = ('bytes', 'junk')
    cap = v[3]
    c.put(r, with_(v, k, ct, cap))
    return c.fin(U)


@seqfn('resize')
def v_resize(c):
    r = cref(c)
    if r is None or c.a[1][0] != 'n':
        return NotImplemented
    r, v = r
    e, st = c.e, c.st
    k = c.a[1][1]
    s2 = st.copy()
    outs = []
    for s in e.assume(s2, ('ge', ('n', L.sub(k, clen(v)))), True):
        c.emit("grow", s, loc=r[1], c=v, by=L.sub(k, clen(v)))
        cap = None
        e.store(s, r[1], with_(v, k, None if v[4][0] == 'bytes' else ('unk',), cap))
        outs.append((s, U))
    for s in e.assume(st, ('ge', ('n', L.sub(k, clen(v)))), False):
        ct = trim_bytes(e, s, v[4], k) if v[4][0] == 'bytes' else ('unk',)
        e.store(s, r[1], with_(v, k, ct))
        outs.append((s, U))
    return c.many(outs)


def slice_bytes(e, st, sl):
    """content descriptor of a byte slice when copied out: ('bytes', ...) relative to its own start"""
    v = e.load(st, sl[1])
    if v[0] != 'c' or v[4][0] != 'bytes':
        return ('bytes', 'junk')
    b = v[4][1]
    lo, hi = sl[2][1], sl[3][1]
    if isinstance(b, tuple) and b[0] == 'win':
        # valid part of [lo,hi) must be inside [vlo,vhi)
        if e.entails_ge(st, L.sub(lo, b[3][1])) and e.entails_ge(st, L.sub(b[4][1], hi)):
            return ('bytes', ('win', b[1], ('n', L.add(b[2][1], lo)), ('n', L.ZERO), ('n', L.sub(hi, lo))))
        return ('bytes', 'junk')
    if isinstance(b, tuple) and b[0] == 'enc':
        vv = materialize(e, st, sl[1]) if sl[1][2] and sl[1][2][-1][0] == 'e' else v
        whole_end = (len(sl) > 4 and 'w' in sl[4]) or e.entails_eq(st, L.sub(clen(vv), hi))
        if whole_end:
            k = b[3] if e.entails_eq(st, lo) else 'tail'
            return ('bytes', ('enc', b[1], b[2], k))
    return ('bytes', 'junk')


@seqfn('to_vec', 'to_owned', 'into_vec', 'to_string')
def v_tovec(c):
    e, st = c.e, c.st
    sl = slice_of(e, st, c.a[0]) if c.a[0][0] in ('r', 'sl') else None
    if sl is None:
        return c.fin(e.fresh(st, c.ty))
    v = e.load(st, sl[1])
    if v[0] == 'c' and v[4][0] == 'bytes':
        n = L.sub(sl[3][1], sl[2][1])
        k = e.fresh_int(st)
        st.cons = st.cons + (L.sub(k[1], n),)
        return c.fin(('c', 'vec', ('n', n), k, slice_bytes(e, st, sl)))
    return c.fin(('c', 'vec', ('n', sl_len(sl)), None, ('unk',)))


TABLE['std::borrow::ToOwned::to_owned'] = v_tovec


@seqfn('extend_from_slice')
def v_efs(c):
    r = cref(c)
    e, st = c.e, c.st
    if r is None:
        return NotImplemented
    r, v = r
    sl = slice_of(e, st, c.a[1]) if c.a[1][0] in ('r', 'sl') else None
    if sl is None:
        n = e.fresh_int(st)
        c.put(r, with_(v, L.add(clen(v), n[1]), ('bytes', 'junk') if v[4][0] == 'bytes' else ('unk',), None))
        return c.fin(U)
    add = sl_len(sl)
    new = slice_bytes(e, st, sl)
    if e.entails_eq(st, clen(v)):
        ct = new
    else:
        ct = join_bytes(e, st, v, new, add)
    cap = e.fresh_int(st)
    st.cons = st.cons + (L.sub(cap[1], L.add(clen(v), add)),)
    if v[3] is not None:
        st.cons = st.cons + (L.sub(cap[1], v[3][1]),)
    c.emit("extend", loc=r[1], c=v, sl=sl)
    c.put(r, with_(v, L.add(clen(v), add), ct, cap))
    return c.fin(U)


def join_bytes(e, st, v, new, add):
    a = v[4][1] if v[4][0] == 'bytes' else None
    b = new[1]
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'win' == b[0] and a[1] == b[1]:
        if e.entails_eq(st, L.sub(a[4][1], clen(v))) and e.entails_eq(st, L.sub(L.add(a[2][1], clen(v)), b[2][1])):
            return ('bytes', ('win', a[1], a[2], a[3], ('n', L.add(clen(v), add))))
    if isinstance(a, tuple) and a[0] == 'win':
        return v[4]
    return ('bytes', 'junk')


@seqfn('copy_within')
def v_copywithin(c):
    e, st = c.e, c.st
    sl = slice_of(e, st, c.a[0], True)
    if sl is None:
        return NotImplemented
    n = sl_len(sl)
    rg = range_of(e, st, c.a[1], n)
    if rg is None or c.a[2][0] != 'n':
        return NotImplemented
    a, b = rg
    dst = c.a[2][1]
    chk(c, L.sub(b, a), "copy_within start after its end")
    chk(c, L.sub(n, b), "copy_within beyond the length")
    v = e.load(st, sl[1])
    off = sl[2][1]
    a, b, dst = L.add(a, off), L.add(b, off), L.add(dst, off)
    if v[0] == 'c' and v[4][0] == 'bytes':
        w = v[4][1]
        ct = ('bytes', 'junk')
        if isinstance(w, tuple) and w[0] == 'win' and e.entails_ge(st, L.sub(a, w[3][1])) and e.entails_ge(st, L.sub(w[4][1], b)):
            ct = ('bytes', ('win', w[1], ('n', L.sub(L.add(w[2][1], a), dst)), ('n', dst), ('n', L.add(dst, L.sub(b, a)))))
        elif isinstance(w, tuple) and w[0] == 'enc':
            ct = ('bytes', ('enc', w[1], w[2], 'tail')) if False else ('bytes', 'junk')
        e.store(st, sl[1], with_(v, content=ct))
    return c.fin(U)


@seqfn('drain')
def v_drain(c):
    r = cref(c)
    if r is None:
        return NotImplemented
    r, v = r
    e, st = c.e, c.st
    if v[1] == 'map':
        return NotImplemented
    rg = range_of(e, st, c.a[1], clen(v))
    if rg is None:
        havoc_ref(e, st, ('r', r[1], 'mut'))
        return c.fin(e.opaque(c.ty))
    a, b = rg
    chk(c, L.sub(b, a), "drain start after its end")
    chk(c, L.sub(clen(v), b), "drain beyond the length")
    if not (e.assume_ge(st, L.sub(b, a)) and e.assume_ge(st, L.sub(clen(v), b))):
        return []
    k = L.sub(b, a)
    full = e.entails_eq(st, a) and e.entails_eq(st, L.sub(b, clen(v)))
    ct = v[4]
    drained = ('unk',)
    if full:
        drained, rest = ct, ('empty',) if ct[0] != 'bytes' else ('bytes', 'junk')
    elif ct[0] == 'bytes':
        drained = ('bytes', 'junk')
        w = ct[1]
        rest = ('bytes', 'junk')
        if isinstance(w, tuple) and e.entails_eq(st, a):
            if w[0] == 'win':
                rest = ('bytes', ('win', w[1], ('n', L.add(w[2][1], k)), ('n', sub0(e, st, w[3][1], k)), ('n', sub0(e, st, w[4][1], k))))
            elif w[0] == 'enc':
                rest = ('bytes', ('enc', w[1], w[2], 'tail'))
    elif ct[0] == 'seq':
        rest = ('mix', ct[1])
        if e.entails_eq(st, a):
            if ct[3] == '+':
                drained = ('seq', ct[1], ct[2], '+', ct[4])
                rest = ('seq', ct[1], ('n', L.add(ct[2][1], k)), '+', None)
            else:
                drained = ('seq', ct[1], ('n', L.add(ct[2][1], L.sub(clen(v), k))), '-', None)
                rest = ct
        elif e.entails_eq(st, L.sub(b, clen(v))):
            if ct[3] == '+':
                drained = ('seq', ct[1], ('n', L.add(ct[2][1], a)), '+', None)
                rest = ct
            else:
                drained = ('seq', ct[1], ct[2], '-', None)
                rest = ('seq', ct[1], ('n', L.add(ct[2][1], k)), '-', None)
        else:
            e.emit(st, "disorder", c=v, v=None, why="elements drained from the middle")
    else:
        rest = ct
    c.emit("drain", loc=r[1], c=v, k=k)
    c.put(r, with_(v, L.sub(clen(v), k), rest))
    return c.fin(('it', 'own', ('c', v[1], ('n', k), None, drained), 'drain'))


def sub0(e, st, x, k):
    if e.entails_ge(st, L.sub(x, k)):
        return L.sub(x, k)
    return L.ZERO


@seqfn('split_off')
def v_splitoff(c):
    r = cref(c)
    if r is None or c.a[1][0] != 'n':
        return NotImplemented
    r, v = r
    e, st = c.e, c.st
    k = c.a[1][1]
    chk(c, L.sub(clen(v), k), "split_off beyond the length")
    if not e.assume_ge(st, L.sub(clen(v), k)):
        return []
    ct = v[4]
    m = L.sub(clen(v), k)
    if ct[0] == 'seq':
        if ct[3] == '+':
            tail = ('seq', ct[1], ('n', L.add(ct[2][1], k)), '+', None)
            head = ct
        else:
            tail = ('seq', ct[1], ct[2], '-', None)
            head = ('seq', ct[1], ('n', L.add(ct[2][1], m)), '-', None)
    elif ct[0] == 'bytes':
        sl = ('sl', r[1], ('n', k), v[2])
        tail = slice_bytes(e, st, sl)
        head = trim_bytes(e, st, ct, k)
    else:
        tail = head = ('unk',) if ct[0] != 'all' else ct
    c.emit("split", loc=r[1], c=v, k=k)
    c.put(r, with_(v, k, head))
    return c.fin(('c', v[1], ('n', m), None, tail))


@seqfn('append')
def v_append(c):
    r, q = cref(c), cref(c, 1)
    if r is None or q is None:
        return NotImplemented
    e, st = c.e, c.st
    (r, v), (q, w) = r, q
    c.emit("append", loc=r[1], c=v, src=q[1], w=w)
    nv = concat(e, st, v, w)
    c.put(q, with_(w, L.ZERO, ('empty',) if w[4][0] != 'bytes' else ('bytes', 'junk')))
    c.put(r, nv)
    return c.fin(U)


def concat(e, st, v, w):
    """v ++ w"""
    n = L.add(clen(v), clen(w))
    if e.entails_eq(st, clen(w)):
        return v
    if e.entails_eq(st, clen(v)):
        return ('c', v[1], ('n', n), None, w[4])
    a, b = v[4], w[4]
    if a[0] == 'seq' and b[0] == 'seq' and a[1] == b[1]:
        if a[3] == b[3] == '+' and e.entails_eq(st, L.sub(b[2][1], L.add(a[2][1], clen(v)))):
            return ('c', v[1], ('n', n), None, ('seq', a[1], a[2], '+', a[4]))
        if a[3] == b[3] == '-' and e.entails_eq(st, L.sub(a[2][1], L.add(b[2][1], clen(w)))):
            return ('c', v[1], ('n', n), None, ('seq', a[1], b[2], '-', None))
        e.emit(st, "disorder", c=v, v=None, why="sequences concatenated out of order")
        return ('c', v[1], ('n', n), None, ('mix', a[1]))
    if a[0] == 'seq' or b[0] == 'seq':
        e.emit(st, "disorder", c=v, v=None, why="stream elements mixed with others")
        return ('c', v[1], ('n', n), None, ('mix', (a if a[0] == 'seq' else b)[1]))
    if a[0] == 'bytes':
        return ('c', v[1], ('n', n), None, join_bytes(e, st, v, b, clen(w)))
    if a == b and a[0] == 'all':
        return ('c', v[1], ('n', n), None, a)
    return ('c', v[1], ('n', n), None, ('unk',))


@seqfn('reverse')
def v_reverse(c):
    e, st = c.e, c.st
    sl = slice_of(e, st, c.a[0], True)
    if sl is None:
        return NotImplemented
    v = e.load(st, sl[1])
    if v[0] != 'c':
        return c.fin(U)
    ct = v[4]
    if ct[0] == 'seq' and not e.entails_ge(st, L.sub(L.ONE, clen(v))):
        whole = e.entails_eq(st, sl[2][1]) and e.entails_eq(st, L.sub(sl[3][1], clen(v)))
        if whole:
            e.store(st, sl[1], with_(v, content=('seq', ct[1], ct[2], '-' if ct[3] == '+' else '+', None)))
        else:
            e.store(st, sl[1], with_(v, content=('mix', ct[1])))
    elif ct[0] == 'bytes':
        e.store(st, sl[1], with_(v, content=('bytes', 'junk')))
    elif ct[0] == 'list':
        e.store(st, sl[1], with_(v, content=('list', tuple(reversed(ct[1])))))
    return c.fin(U)


@seqfn('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'rotate_left', 'rotate_right', 'swap',
       'dedup', 'dedup_by_key', 'dedup_by', 'retain', 'retain_mut', 'fill', 'copy_from_slice', 'clone_from_slice', 'insert')
def v_scramble(c):
    e, st = c.e, c.st
    sl = slice_of(e, st, c.a[0], True)
    if sl is None:
        return NotImplemented
    op = c.name.split('::')[-1]
    v = e.load(st, sl[1])
    if v[0] != 'c':
        return c.fin(U)
    if op == 'insert' and c.a[1][0] == 'n':
        if e.entails_eq(st, c.a[1][1]):
            e.store(st, sl[1], put(e, st, v, c.a[2], 'front'))
            return c.fin(U)
        if e.entails_eq(st, L.sub(c.a[1][1], clen(v))):
            e.store(st, sl[1], put(e, st, v, c.a[2], 'back'))
            return c.fin(U)
    ct = v[4]
    n = v[2]
    if op in ('dedup', 'dedup_by_key', 'dedup_by', 'retain', 'retain_mut'):
        n = e.fresh_int(st)
        e.assume_ge(st, L.sub(clen(v), n[1]))
    if op == 'insert':
        n = ('n', L.addc(clen(v), 1))
    if ct[0] == 'seq':
        e.emit(st, "disorder", c=v, v=None, why=op + " on stream elements")
        ct = ('mix', ct[1])
    elif ct[0] == 'bytes':
        ct = ('bytes', 'junk')
        if op in ('copy_from_slice', 'clone_from_slice'):
            v0 = v[4][1]
            if isinstance(v0, tuple) and v0[0] == 'win' and e.entails_ge(st, L.sub(sl[2][1], v0[4][1])):
                ct = v[4]    # writes past the valid window
    elif ct[0] == 'list':
        ct = ('unk',)
    e.store(st, sl[1], ('c', v[1], n, v[3], ct))
    return c.fin(U)


@seqfn('remove', 'swap_remove', 'swap_remove_back', 'swap_remove_front')
def v_remove(c):
    r = cref(c)
    e, st = c.e, c.st
    if r is None or c.a[1][0] != 'n':
        return NotImplemented
    r, v = r
    ix = c.a[1][1]
    deq = v[1] == 'deque'
    outs = []
    inb = L.addc(L.sub(clen(v), ix), -1)
    if deq:
        s2 = st.copy()
        for s in e.assume(s2, ('ge', ('n', inb)), False):
            outs.append((s, none(c.ty)))
    else:
        chk(c, inb, "remove index out of bounds")
    for s in e.assume(st, ('ge', ('n', inb)), True):
        op = c.name.split('::')[-1]
        if e.entails_eq(s, L.sub(ix, L.addc(clen(v), -1))):
            x, nv = take(e, s, v, 'back')
        elif e.entails_eq(s, ix) and op == 'remove':
            x, nv = take(e, s, v, 'front')
        else:
            ct = v[4]
            x = elem_load(e, s, v, ('n', ix)) if ct[0] == 'seq' else None
            if ct[0] == 'seq':
                e.emit(s, "disorder", c=v, v=x, why=op + " from the middle of stream elements")
                ct = ('mix', ct[1])
            nv = with_(v, L.addc(clen(v), -1), ct)
        if x is None:
            x = e.fresh(s, targ(c.ty, 0) if deq else c.ty)
        elif x[0] == 'y' and x[2] == ('?',):
            x = retype(s, x, targ(c.ty, 0) if deq else c.ty)
        e.store(s, r[1], nv)
        for s in e.models.born(e, s, x):
            c.emit("pop", s, loc=r[1], v=x, end='mid', old=v, new=nv)
            outs.append((s, some(x, c.ty) if deq else x))
    return c.many(outs)


@seqfn('as_slice', 'as_mut_slice', 'make_contiguous', 'as_bytes', 'as_str', 'as_mut', 'as_ref')
def v_asslice(c):
    s = slice_of(c.e, c.st, c.a[0], 'mut' in c.name or 'make' in c.name)
    if s is None:
        return NotImplemented
    return c.fin(s)


@seqfn('split_at', 'split_at_mut')
def v_splitat(c):
    e, st = c.e, c.st
    s = slice_of(e, st, c.a[0])
    if s is None or c.a[1][0] != 'n':
        return NotImplemented
    k = c.a[1][1]
    chk(c, L.sub(sl_len(s), k), "split_at beyond the length")
    if not e.assume_ge(st, L.sub(sl_len(s), k)):
        return []
    mid = ('n', L.add(s[2][1], k))
    fl = 'm' if 'mut' in c.name else ''
    return c.fin(S(('tuple', ()), 0, ('sl', s[1], s[2], mid, fl), ('sl', s[1], mid, s[3], fl)))


@seqfn('contains', 'starts_with', 'ends_with')
def v_contains(c):
    return c.fin(c.e.fresh(c.st, ('bool',)))


@seqfn('leak', 'into_boxed_slice', 'spare_capacity_mut', 'as_ptr', 'as_mut_ptr', 'split_at_spare_mut')
def v_other(c):
    return NotImplemented


@model('std::io::IoSlice::new', 'std::io::IoSliceMut::new')
def m_ioslice(c):
    s = slice_of(c.e, c.st, c.a[0]) if c.a[0][0] in ('r', 'sl') else None
    if s is None:
        return NotImplemented
    return c.fin(('ios', s))


# ---------------------------------------------------------------- maps
def mapref(c, i=0):
    r = c.a[i]
    v = r
    while v[0] == 'r':
        r = v
        v = c.e.load(c.st, v[1])
    if v[0] == 'guard':
        r = v[2]
        v = c.e.load(c.st, r[1])
    if v[0] == 'c' and v[1] == 'map':
        return r, v
    return None


def mapfn(*names):
    full = []
    for n in names:
        full += ['std::collections::HashMap::' + n, 'std::collections::BTreeMap::' + n]
    return model(*full)


def key_of(c, v):
    return strip_refs(c.e, c.st, v)[1]


def focus(st):
    """the tracked key: every map remembers whether it holds this key, and the value"""
    return st.mon.get('K')


def empty_map(st):
    K = focus(st)
    return cont('map', L.ZERO, None, ('map', ((K, 'not', U),) if K else ()))


def fsplit(e, st, k):
    """split st on whether key k is the tracked key (all other keys are larger, without loss of generality)"""
    K = focus(st)
    if K is None or k[0] != 'n' or not may_eq(e, st, k, K) or e.entails_eq(st, L.sub(k[1], K[1])):
        return [st]
    s2 = st.copy()
    out = []
    if e.add_eq(st, L.sub(k[1], K[1])):
        out.append(st)
    if e.assume_ge(s2, L.addc(L.sub(k[1], K[1]), -1)):
        out.append(s2)
    return out


def map_lookup(e, st, m, k):
    """entry value for key: ('has', v) / ('not',) / None"""
    if m[4][0] != 'map':
        return None
    for kk, s, v in m[4][1]:
        if kk == k:
            return (s, v)
        if kk[0] == 'n' and k[0] == 'n' and e.entails_eq(st, L.sub(kk[1], k[1])):
            return (s, v)
    return None


def map_set(e, st, m, k, s, v, n=None):
    ents = []
    K = focus(st)
    if m[4][0] == 'map':
        for x in m[4][1]:
            if x[0] == k or (x[0][0] == 'n' and k[0] == 'n' and e.entails_eq(st, L.sub(x[0][1], k[1]))):
                continue
            # entries whose key may equal k become unknown if they conflict
            if x[0][0] == 'n' and k[0] == 'n' and may_eq(e, st, x[0], k):
                continue
            ents.append(x)
    ents.append((k, s, v))
    if K is not None:
        # the tracked key and the key used last
        tr = [x for x in ents if x[0][0] == 'n' and e.entails_eq(st, L.sub(x[0][1], K[1]))]
        ents = tr + [x for x in ents if x not in tr][-1:]
    return ('c', 'map', n if n is not None else e.fresh_int(st), None, ('map', tuple(ents[-3:])))


def map_prune(e, st, m):
    """forget everything but the tracked key"""
    K = focus(st)
    if K is None or m[4][0] != 'map':
        return m
    return with_(m, content=('map', tuple(x for x in m[4][1] if x[0][0] == 'n' and e.entails_eq(st, L.sub(x[0][1], K[1])))))


def map_owned(m):
    return [x[2] for x in m[4][1] if x[1] == 'has'] if m[4][0] == 'map' else []


def may_eq(e, st, a, b):
    d = e.N(st, L.sub(a[1], b[1]))
    if not d[1]:
        return d[0] == 0
    return not (e.entails_ge(st, L.addc(d, -1)) or e.entails_ge(st, L.addc(L.neg(d), -1)))


def mapval_ty(c, i=1):
    t = c.f[3]
    return t[i] if len(t) > i else ('?',)


def setfn(*names):
    return model(*['std::collections::%s::%s' % (k, n) for k in ('HashSet', 'BTreeSet') for n in names])


@setfn('new', 'with_capacity', 'with_hasher', 'default')
@mapfn('new', 'with_capacity', 'with_hasher')
def h_new(c):
    return c.fin(empty_map(c.st))


def keyed(i, ref):
    '''run a map model once per outcome of "is this the tracked key"'''
    def deco(f):
        def g(c):
            if focus(c.st) is None or mapref(c) is None:
                return f(c)
            k = key_of(c, c.a[i]) if ref else c.a[i]
            out = []
            for s in fsplit(c.e, c.st, k):
                c2 = C(c.e, s, c.f, c.a, c.dest, c.ty, c.sp, c.div)
                r = f(c2)
                if r is NotImplemented:
                    return r
                out += r
            return out
        return g
    return deco


@mapfn('insert')
@keyed(1, False)
def h_insert(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    r, m = r
    e, st = c.e, c.st
    k = c.a[1]
    c.emit("map", op='insert', loc=r[1], key=k, val=c.a[2])
    known = map_lookup(e, st, m, k)
    outs = []
    n = m[2]
    if known and known[0] == 'has':
        e.store(st, r[1], map_set(e, st, m, k, 'has', c.a[2], n))
        outs.append((st, some(known[1], c.ty)))
    else:
        s2 = st.copy()
        e.store(st, r[1], map_set(e, st, m, k, 'has', c.a[2], ('n', L.addc(n[1], 1))))
        outs.append((st, none(c.ty)))
        if not known and not e.entails_eq(s2, n[1]):
            e.store(s2, r[1], map_set(e, s2, m, k, 'has', c.a[2], n))
            old = e.fresh(s2, targ(c.ty, 0))
            c.emit("map_replaced", s2, loc=r[1], key=k, old=old)
            outs.append((s2, some(old, c.ty)))
    return c.many(outs)


@setfn('insert')
@keyed(1, False)
def hs_insert(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    r, m = r
    e, st = c.e, c.st
    k = c.a[1]
    known = map_lookup(e, st, m, k)
    outs = []
    if not (known and known[0] == 'not'):
        s = st.copy()
        if e.assume_ge(s, L.addc(clen(m), -1)):
            e.store(s, r[1], map_set(e, s, m, k, 'has', U, m[2]))
            outs.append((s, FALSE))
    if not (known and known[0] == 'has'):
        e.store(st, r[1], map_set(e, st, m, k, 'has', U, ('n', L.addc(clen(m), 1))))
        outs.append((st, TRUE))
    return c.many(outs)


@setfn('remove', 'contains')
@keyed(1, True)
def hs_get(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    r, m = r
    e, st = c.e, c.st
    k = key_of(c, c.a[1])
    known = map_lookup(e, st, m, k)
    rem = c.name.endswith('remove')
    outs = []
    if not (known and known[0] == 'has'):
        s = st.copy()
        e.store(s, r[1], map_set(e, s, m, k, 'not', U, m[2]))
        outs.append((s, FALSE))
    if not (known and known[0] == 'not') and e.assume_ge(st, L.addc(clen(m), -1)):
        e.store(st, r[1], map_set(e, st, m, k, 'not', U, ('n', L.addc(clen(m), -1))) if rem else map_set(e, st, m, k, 'has', U, m[2]))
        outs.append((st, TRUE))
    return c.many(outs)


@mapfn('remove', 'remove_entry', 'get', 'get_mut', 'contains_key', 'get_key_value')
@keyed(1, True)
def h_get(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    r, m = r
    e, st = c.e, c.st
    op = c.name.split('::')[-1]
    k = key_of(c, c.a[1])
    known = map_lookup(e, st, m, k)
    vt = mapval_ty(c)
    outs = []
    empty = e.entails_eq(st, clen(m))
    if not (known and known[0] == 'has'):
        s = st.copy()
        e.store(s, r[1], map_set(e, s, m, k, 'not', U, m[2]))
        c.emit("map", s, op=op, loc=r[1], key=k, val=None, hit=False)
        outs.append((s, FALSE if op == 'contains_key' else none(c.ty)))
    if not (known and known[0] == 'not') and not empty:
        s = st
        v = known[1] if known else e.fresh(s, vt)
        if not e.assume_ge(s, L.addc(clen(m), -1)):
            return c.many(outs)
        if op.startswith('remove'):
            e.store(s, r[1], map_set(e, s, m, k, 'not', U, ('n', L.addc(clen(m), -1))))
            res = some(v if op == 'remove' else S(('tuple', ()), 0, k, v), c.ty)
        else:
            e.store(s, r[1], map_set(e, s, m, k, 'has', v, m[2]))
            res = TRUE if op == 'contains_key' else some(('r', ('loc', r[1][1], r[1][2] + (('mv', k),)), 'mut' if op == 'get_mut' else 'ref'), c.ty)
        c.emit("map", s, op=op, loc=r[1], key=k, val=v, hit=True)
        outs.append((s, res))
    return c.many(outs)


@mapfn('entry')
@keyed(1, False)
def h_entry(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    r, m = r
    e, st = c.e, c.st
    k = c.a[1]
    vt = mapval_ty(c)
    known = map_lookup(e, st, m, k)
    outs = []
    if not (known and known[0] == 'has'):
        s = st.copy()
        e.store(s, r[1], map_set(e, s, m, k, 'not', U, m[2]))
        c.emit("map", s, op='entry', loc=r[1], key=k, val=None, hit=False)
        outs.append((s, S(c.ty, 1, ('entry', r, k, 'vacant'))))
    if not (known and known[0] == 'not') and not e.entails_eq(st, clen(m)):
        s = st
        v = known[1] if known else e.fresh(s, vt)
        e.assume_ge(s, L.addc(clen(m), -1))
        e.store(s, r[1], map_set(e, s, m, k, 'has', v, m[2]))
        c.emit("map", s, op='entry', loc=r[1], key=k, val=v, hit=True)
        outs.append((s, S(c.ty, 0, ('entry', r, k, 'occupied'))))
    return c.many(outs)


def entry_of(c):
    v = strip_refs(c.e, c.st, c.a[0])[1]
    return v if v[0] == 'entry' else None


@model('std::collections::hash_map::OccupiedEntry::get', 'std::collections::hash_map::OccupiedEntry::get_mut',
       'std::collections::hash_map::OccupiedEntry::into_mut')
def h_eget(c):
    en = entry_of(c)
    if en is None:
        return NotImplemented
    loc = ('loc', en[1][1][1], en[1][1][2] + (('mv', en[2]),))
    return c.fin(('r', loc, 'ref' if c.name.endswith('::get') else 'mut'))


@model('std::collections::hash_map::OccupiedEntry::remove', 'std::collections::hash_map::OccupiedEntry::remove_entry')
def h_eremove(c):
    en = entry_of(c)
    if en is None:
        return NotImplemented
    e, st = c.e, c.st
    m = e.load(st, en[1][1])
    known = map_lookup(e, st, m, en[2])
    v = known[1] if known and known[0] == 'has' else e.fresh(st, c.ty)
    e.store(st, en[1][1], map_set(e, st, m, en[2], 'not', U, ('n', L.addc(clen(m), -1))))
    c.emit("map", op='remove', loc=en[1][1], key=en[2], val=v, hit=True)
    return c.fin(v if c.name.endswith('remove') else S(('tuple', ()), 0, en[2], v))


@model('std::collections::hash_map::OccupiedEntry::insert', 'std::collections::hash_map::VacantEntry::insert')
def h_einsert(c):
    en = entry_of(c)
    if en is None:
        return NotImplemented
    e, st = c.e, c.st
    m = e.load(st, en[1][1])
    known = map_lookup(e, st, m, en[2])
    e.store(st, en[1][1], map_set(e, st, m, en[2], 'has', c.a[1], m[2] if 'Occupied' in c.name else ('n', L.addc(clen(m), 1))))
    c.emit("map", op='insert', loc=en[1][1], key=en[2], val=c.a[1])
    if 'Occupied' in c.name:
        return c.fin(known[1] if known and known[0] == 'has' else e.fresh(st, c.ty))
    return c.fin(('r', ('loc', en[1][1][1], en[1][1][2] + (('mv', en[2]),)), 'mut'))


@model('std::collections::hash_map::Entry::or_insert', 'std::collections::hash_map::Entry::insert_entry')
def h_orinsert(c):
    x = c.a[0]
    if x[0] != 's':
        return NotImplemented
    en = dict(x[4])[0]
    e, st = c.e, c.st
    if x[2] == 1 or 'insert_entry' in c.name:
        m = e.load(st, en[1][1])
        e.store(st, en[1][1], map_set(e, st, m, en[2], 'has', c.a[1], m[2]))
        c.emit("map", op='insert', loc=en[1][1], key=en[2], val=c.a[1])
    if 'insert_entry' in c.name:
        return c.fin(('entry', en[1], en[2], 'occupied'))
    return c.fin(('r', ('loc', en[1][1][1], en[1][1][2] + (('mv', en[2]),)), 'mut'))


@model('std::collections::hash_map::OccupiedEntry::key', 'std::collections::hash_map::VacantEntry::key')
def h_ekey(c):
    en = entry_of(c)
    if en is None:
        return NotImplemented
    return c.fin(('r', ('loc', c.e.newcell(c.st, en[2]), ()), 'ref'))


@setfn('is_empty', 'len')
@mapfn('is_empty', 'len')
def h_len(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    n = c.e.N(c.st, clen(r[1]))
    if c.name.endswith('len'):
        return c.fin(('n', n))
    if not n[1]:
        return c.fin(('b', n[0] == 0))
    return c.fin(('b', ('not', ('ge', ('n', L.addc(n, -1))))))


@setfn('clear')
@mapfn('clear')
def h_clear(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    c.emit("map", op='clear', loc=r[0][1], key=None, val=None)
    c.put(r[0], empty_map(c.st))
    return drop_after(c, c.fin(U), r[1])


@mapfn('drain')
def h_drain(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    m = r[1]
    c.emit("map", op='drain', loc=r[0][1], key=None, val=None)
    c.put(r[0], empty_map(c.st))
    return c.fin(('it', 'mapown', m[2], mapval_ty(c, 0), mapval_ty(c, 1), 'drain', m[4]))


def drop_after(c, sts, v):
    out = []
    for s in sts:
        if s.fr and isinstance(s.fr[-1], Frame):
            out += c.e.models.start_drop(c.e, s, v, c.sp)
        else:
            out.append(s)
    return out


@mapfn('iter', 'values', 'keys', 'iter_mut', 'values_mut')
def h_iter(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    op = c.name.split('::')[-1]
    return c.fin(('it', 'mapref', r[1][2], mapval_ty(c, 0), mapval_ty(c, 1), op))


@mapfn('retain', 'extend', 'reserve', 'shrink_to_fit')
def h_misc(c):
    r = mapref(c)
    if r is None:
        return NotImplemented
    op = c.name.split('::')[-1]
    if op in ('reserve', 'shrink_to_fit'):
        return c.fin(U)
    c.emit("map", op=op, loc=r[0][1], key=None, val=None)
    n = c.e.fresh_int(c.st)
    c.put(r[0], ('c', 'map', n, None, ('map', ())))
    return c.fin(U)


# ---------------------------------------------------------------- atomics, locks
def cellref(c, i=0):
    r = c.a[i]
    v = r
    while v[0] == 'r':
        r = v
        v = c.e.load(c.st, v[1])
    return r, v


def ord_name(c, v):
    if v[0] == 's':
        vs = c.e.variants(v[1])
        if vs:
            return vs[v[2]][0]
    return '?'


ATOM = 'std::sync::atomic::Atomic::'


def atomfn(*names):
    return model(*[ATOM + n for n in names])


@atomfn('new')
def a_new(c):
    return c.fin(('atomic', aval(c.a[0])))


@model('std::sync::atomic::AtomicBool::new', 'std::sync::atomic::AtomicUsize::new')
def a_new2(c):
    return c.fin(('atomic', aval(c.a[0])))


def aval(v):
    """an integer constant is kept apart from others at joins"""
    if v[0] == 'n' and not v[1][1]:
        return ('k', v[1][0])
    return v


def own_atomic(c, r, v, op):
    """an atomic that only the analysed task touches: its value is known"""
    e, st = c.e, c.st
    old = v[1]
    if old[0] == 'k' and isinstance(old[1], int):
        old = ('n', (old[1], ()))
    put = lambda s, x: e.store(s, r[1], ('atomic', aval(x)))
    if op == 'load':
        c.emit("atomic", op=op, ref=r, old=old, new=None, ord=[ord_name(c, a) for a in c.a[1:]])
        return c.fin(old)
    if op in ('store', 'swap'):
        c.emit("atomic", op=op, ref=r, old=old, new=c.a[1], ord=[ord_name(c, a) for a in c.a[2:]])
        put(st, c.a[1])
        return c.fin(U if op == 'store' else old)
    if op.startswith('compare_exchange'):
        outs = []
        if old[0] == 'n' and c.a[1][0] == 'n':
            tests = ('eq', ('n', L.sub(old[1], c.a[1][1])))
            s2 = st.copy()
            hit, miss = e.assume(st, tests, True), e.assume(s2, tests, False)
        elif old[0] == 'b' and c.a[1][0] == 'b' and isinstance(old[1], bool) and isinstance(c.a[1][1], bool):
            hit, miss = ([st], []) if old[1] == c.a[1][1] else ([], [st])
        else:
            hit, miss = [st.copy()], [st]
        for s in hit:
            c.emit("atomic", s, op='cas', ref=r, old=c.a[1], new=c.a[2], ord=[])
            put(s, c.a[2])
            outs.append((s, ok(c.a[1], c.ty)))
        for s in miss:
            c.emit("atomic", s, op='cas_fail', ref=r, old=old, new=None, ord=[])
            outs.append((s, err(old, c.ty)))
        return c.many(outs)
    if op in ('fetch_add', 'fetch_sub') and old[0] == 'n' and c.a[1][0] == 'n':
        put(st, ('n', L.add(old[1], c.a[1][1]) if op == 'fetch_add' else L.sub(old[1], c.a[1][1])))
        return c.fin(old)
    if op == 'fetch_max' and old[0] == 'n' and c.a[1][0] == 'n' and not old[1][1] and not c.a[1][1][1]:
        put(st, ('n', (max(old[1][0], c.a[1][1][0]), ())))
        return c.fin(old)
    if op in ('fetch_or', 'fetch_and') and old[0] == 'b' and isinstance(old[1], bool) and c.a[1][0] == 'b' and isinstance(c.a[1][1], bool):
        put(st, ('b', (old[1] or c.a[1][1]) if op == 'fetch_or' else (old[1] and c.a[1][1])))
        return c.fin(old)
    put(st, e.fresh(st, c.ty))
    return c.fin(old)


def atomics(c):
    """load/store/swap/compare_exchange/fetch_* on Atomic<..>"""
    op = c.name.split('::')[-1]
    if '::<impl' in c.name or 'atomic' not in c.name:
        return NotImplemented
    e, st = c.e, c.st
    r, v = cellref(c)
    inner = c.f[3][0] if c.f[3] else None
    if e.models.own_atomics and v[0] == 'atomic' and r[0] == 'r':
        return own_atomic(c, r, v, op)
    if op == 'load':
        ty = c.ty
        x = e.fresh(st, ty)
        c.emit("atomic", op=op, ref=r, old=x, new=None, ord=[ord_name(c, a) for a in c.a[1:]])
        return c.fin(x)
    if op == 'store':
        c.emit("atomic", op=op, ref=r, old=None, new=c.a[1], ord=[ord_name(c, a) for a in c.a[2:]])
        return c.fin(U)
    if op in ('swap',) or op.startswith('fetch_'):
        x = e.fresh(st, c.ty)
        c.emit("atomic", op=op, ref=r, old=x, new=c.a[1], ord=[ord_name(c, a) for a in c.a[2:]])
        return c.fin(x)
    if op.startswith('compare_exchange'):
        s2 = st.copy()
        c.emit("atomic", op='cas', ref=r, old=c.a[1], new=c.a[2], ord=[ord_name(c, a) for a in c.a[3:]])
        x = e.fresh(s2, targ(c.ty, 1))
        c.emit("atomic", s2, op='cas_fail', ref=r, old=x, new=None, ord=[])
        return c.many([(st, ok(c.a[1], c.ty)), (s2, err(x, c.ty))])
    if op in ('clone',):
        return NotImplemented
    return c.fin(e.fresh(st, c.ty))


PREFIX.append(('std::sync::atomic::Atomic', atomics))


@model('k_lock::Mutex::lock', 'std::sync::Mutex::lock', 'std::sync::poison::mutex::Mutex::lock', 'k_lock::Mutex::try_lock',
       'std::sync::Mutex::try_lock', 'std::sync::poison::mutex::Mutex::try_lock')
def m_lock(c):
    e, st = c.e, c.st
    r, v = cellref(c)
    # shared contents: unknown at each acquisition
    ty = None
    if v[0] == 'y' and v[2][0] == 'adt' and v[2][2]:
        ty = v[2][2][0]
    elif c.f[3]:
        ty = c.f[3][0]
    outs = []
    if c.name.endswith('try_lock'):
        # someone else holds it
        s = st.copy()
        s.log(f"{c.sp} try_lock: taken")
        outs.append((s, err(e.fresh(s, targ(c.ty, 1)), c.ty) if c.ty[1] == RESULT else none(c.ty)))
    for s, inner in e.models.lock_contents(c, r, v, ty):
        c.emit("lock", s, ref=r, inner=inner)
        s.log(f"{c.sp} lock")
        g = ('guard', r, inner)
        outs.append((s, ok(g, c.ty) if c.ty[0] == 'adt' and c.ty[1] == RESULT else some(g, c.ty) if c.ty[0] == 'adt' and c.ty[1] == OPTION else g))
    return c.many(outs)


@model('k_lock::Mutex::new', 'std::sync::Mutex::new')
def m_mutexnew(c):
    y = c.e.opaque(c.ty)
    return c.fin(y)


@model('std::io::Error::kind')
def m_errkind(c):
    e, st = c.e, c.st
    ref, v = strip_refs(e, st, c.a[0])
    if v[0] != 'y':
        return c.fin(e.fresh(st, c.ty))
    k = ('kind', v[1])
    if k not in st.memo:
        st.memo[k] = e.fresh(st, c.ty)
    return c.fin(st.memo[k])


@model('core::panicking::assert_failed', 'core::panicking::panic_fmt', 'core::panicking::panic', 'std::rt::panic_fmt',
       'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'std::rt::begin_panic')
def m_panic(c):
    c.e.emit(c.st, "panic", kind="call:" + c.name, span=c.sp, ops=[], d=len(c.st.fr) - 1)
    return []
