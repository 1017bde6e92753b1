"""tokio / futures / user-trait models: each call is split into the outcomes its contract allows, and
each outcome is announced to the property automata"""
import lin as L
from eng import U, MOVED, TRUE, FALSE, Frame, SFrame
from models import (model, PREFIX, C, S, some, none, ok, err, ready, pending, targ, deref, strip_refs, cont, clen, with_,
                    put, adt, OPTION, RESULT, POLL, mk_item, TABLE, ctx_ref, sframe, spush, sset)
from m_std import slice_of, sl_len, cref, concat

EK = 'core::io::error::ErrorKind'


def io_err(e, st, kind):
    """an io::Error whose kind() is WouldBlock / Interrupted / something else"""
    y = e.opaque(adt('core::io::error::Error'))
    st.prov[y[1]] = ('ioerr', kind)
    vs = e.variants(adt(EK)) or []
    ix = {v[0]: i for i, v in enumerate(vs)}
    if kind in ix:
        st.memo[('kind', y[1])] = ('s', adt(EK), ix[kind], None, ())
    else:
        k = e.opaque(adt(EK))
        st.vf[k[1]] = frozenset(i for i in range(len(vs)) if i not in (ix.get('WouldBlock'), ix.get('Interrupted')))
        st.memo[('kind', y[1])] = k
    return y


def sid(v):
    return v[1] if v[0] == 'y' else None


def recv_y(c, i=0):
    """(ref, y) of the receiver object"""
    return strip_refs(c.e, c.st, c.a[i])


# ---------------------------------------------------------------- sockets
@model('tokio::net::TcpStream::poll_read_ready', 'tokio::net::TcpStream::poll_write_ready')
def t_ready(c):
    e = c.e
    what = 'write' if 'write' in c.name else 'read'
    r, y = recv_y(c)
    outs = []
    s = c.st.copy()
    c.emit("io", s, op='ready', what=what, res='ok', obj=y)
    s.log(f"{c.sp} poll_{what}_ready -> Ready(Ok)")
    outs.append((s, ready(ok(U, targ(c.ty, 0)), c.ty)))
    s = c.st.copy()
    er = io_err(e, s, 'other')
    c.emit("io", s, op='ready', what=what, res='err', obj=y)
    s.log(f"{c.sp} poll_{what}_ready -> Ready(Err)")
    outs.append((s, ready(err(er, targ(c.ty, 0)), c.ty)))
    s = c.st
    c.emit("io", s, op='ready', what=what, res='pending', obj=y)
    s.log(f"{c.sp} poll_{what}_ready -> Pending")
    outs.append((s, pending(c.ty)))
    return c.many(outs)


@model('tokio::net::TcpStream::try_read')
def t_try_read(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    sl = slice_of(e, st, c.a[1], True) if c.a[1][0] in ('r', 'sl') else None
    if sl is None:
        return NotImplemented
    n = sl_len(sl)
    outs = []
    # data
    s = st.copy()
    if e.assume_ge(s, L.addc(n, -1)):
        k = e.fresh_int(s)
        if e.assume_ge(s, L.addc(k[1], -1)) and e.assume_ge(s, L.sub(n, k[1])):
            s.log(f"{c.sp} try_read -> Ok(n>0)")
            c.emit("read", s, sl=sl, n=k[1], obj=y)
            outs.append((s, ok(k, c.ty)))
    s = st.copy()
    s.log(f"{c.sp} try_read -> Ok(0)")
    c.emit("io", s, op='read', what='read', res='eof', obj=y, room=n)
    outs.append((s, ok(('n', L.ZERO), c.ty)))
    for kind in ('WouldBlock', 'Interrupted', 'other'):
        s = st.copy()
        er = io_err(e, s, kind)
        s.log(f"{c.sp} try_read -> Err({kind})")
        c.emit("io", s, op='read', what='read', res=kind, obj=y)
        outs.append((s, err(er, c.ty)))
    return c.many(outs)


@model('tokio::net::TcpStream::try_write_vectored', 'tokio::net::TcpStream::try_write')
def t_try_write(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    if c.name.endswith('vectored'):
        sl = slice_of(e, st, c.a[1]) if c.a[1][0] in ('r', 'sl') else None
        src = ('iov', sl)
    else:
        sl = slice_of(e, st, c.a[1]) if c.a[1][0] in ('r', 'sl') else None
        src = ('buf', sl)
    if sl is None:
        return NotImplemented
    outs = []
    s = st.copy()
    k = e.fresh_int(s)
    e.assume_ge(s, L.addc(k[1], -1))
    if src[0] == 'buf':
        okk = e.assume_ge(s, L.sub(sl_len(sl), k[1]))
    else:
        okk = True
    if okk:
        s.log(f"{c.sp} write -> Ok(n>0)")
        c.emit("write", s, src=src, n=k[1], obj=y)
        outs.append((s, ok(k, c.ty)))
    s = st.copy()
    s.log(f"{c.sp} write -> Ok(0)")
    c.emit("io", s, op='write', what='write', res='zero', obj=y)
    outs.append((s, ok(('n', L.ZERO), c.ty)))
    for kind in ('WouldBlock', 'Interrupted', 'other'):
        s = st.copy()
        er = io_err(e, s, kind)
        s.log(f"{c.sp} write -> Err({kind})")
        c.emit("io", s, op='write', what='write', res=kind, obj=y)
        outs.append((s, err(er, c.ty)))
    return c.many(outs)


@model('tokio::net::TcpStream::set_nodelay', 'tokio::net::TcpStream::set_linger', 'tokio::net::TcpStream::set_ttl')
def t_opt(c):
    e = c.e
    s2 = c.st.copy()
    er = io_err(e, s2, 'other')
    s2.log(f"{c.sp} set_nodelay -> Err")
    c.emit("io", s2, op='sockopt', what='opt', res='err', obj=None)
    c.emit("io", op='sockopt', what='opt', res='ok', obj=None)
    return c.many([(c.st, ok(U, c.ty)), (s2, err(er, c.ty))])


@model('tokio::net::TcpListener::poll_accept')
def t_accept(c):
    e = c.e
    outs = []
    s = c.st.copy()
    stream = e.opaque(adt('tokio::net::tcp::stream::TcpStream'))
    s.prov[stream[1]] = ('accepted',)
    addr = e.opaque(adt('core::net::socket_addr::SocketAddr'))
    s.prov[addr[1]] = ('peer', stream)
    s.log(f"{c.sp} poll_accept -> Ok")
    c.emit("accept", s, res='ok', stream=stream, addr=addr)
    outs.append((s, ready(ok(S(('tuple', ()), 0, stream, addr)), c.ty)))
    s = c.st.copy()
    er = io_err(e, s, 'other')
    s.log(f"{c.sp} poll_accept -> Err")
    c.emit("accept", s, res='err', stream=None, addr=None)
    outs.append((s, ready(err(er), c.ty)))
    s = c.st
    s.log(f"{c.sp} poll_accept -> Pending")
    c.emit("accept", s, res='pending', stream=None, addr=None)
    outs.append((s, pending(c.ty)))
    return c.many(outs)


# ---------------------------------------------------------------- mpsc
def chan_pair(c, kind):
    e, st = c.e, c.st
    txt, rxt = targ2(c.ty, 0), targ2(c.ty, 1)
    rx = e.opaque(rxt)
    st.prov[rx[1]] = ('rx', kind)
    st.child[(rx[1], 'cnt')] = ('n', L.ZERO)
    tx = e.opaque(txt)
    st.prov[tx[1]] = ('tx', rx)
    return tx, rx


def targ2(ty, i):
    if ty[0] == 'tuple' and len(ty[1]) > i:
        return ty[1][i]
    return ('?',)


@model('tokio::sync::mpsc::channel', 'tokio::sync::mpsc::unbounded_channel', 'tokio::sync::oneshot::channel')
def t_channel(c):
    kind = 'oneshot' if 'oneshot' in c.name else 'unbounded' if 'unbounded' in c.name else 'mpsc'
    tx, rx = chan_pair(c, kind)
    c.emit("channel", kind=kind, tx=tx, rx=rx, cap=c.a[0] if c.a else None)
    return c.fin(S(c.ty if c.ty[0] == 'tuple' else ('tuple', ()), 0, tx, rx))


RX = ['tokio::sync::mpsc::Receiver::', 'tokio::sync::mpsc::UnboundedReceiver::']


def rxfn(*n):
    return model(*[p + x for p in RX for x in n])


def chan_cnt(e, st, y):
    k = (y[1], 'cnt')
    if k not in st.child:
        st.child[k] = ('n', L.ZERO)
    return st.child[k][1]


def item_ty(y):
    return targ(y[2], 0) if y[2][0] == 'adt' else ('?',)


@rxfn('poll_recv_many')
def t_recv_many(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    buf = cref(c, 2)
    if y[0] != 'y' or buf is None:
        return NotImplemented
    br, bv = buf
    lim = c.a[3]
    outs = []
    stream = ('chan', y)
    if lim[0] == 'n' and not e.entails_ge(st, L.addc(lim[1], -1)):
        s = st.copy()
        if e.add_eq(s, lim[1]):
            c.emit("recv", s, obj=y, res='limit0', n=L.ZERO)
            outs.append((s, ready(('n', L.ZERO), c.ty)))
        if not e.assume_ge(st, L.addc(lim[1], -1)):
            return c.many(outs)
    if (y[1], 'closed') in st.child:
        # once every sender is gone and the queue is drained it stays that way
        st.log(f"{c.sp} poll_recv_many -> closed")
        c.emit("recv", st, obj=y, res='closed', n=L.ZERO)
        return c.many(outs + [(st, ready(('n', L.ZERO), c.ty))])
    # items
    s = st.copy()
    k = e.fresh_int(s)
    good = e.assume_ge(s, L.addc(k[1], -1))
    if good and lim[0] == 'n':
        good = e.assume_ge(s, L.sub(lim[1], k[1]))
    if good:
        cnt = chan_cnt(e, s, y)
        add = ('c', bv[1], k, None, ('seq', stream, ('n', cnt), '+', None))
        s.child[(y[1], 'cnt')] = ('n', e.N(s, L.add(cnt, k[1])))
        s.log(f"{c.sp} poll_recv_many -> {{n>0}} messages")
        nv = concat(e, s, bv, add)
        e.store(s, br[1], nv)
        c.emit("recv", s, obj=y, res='items', n=k[1])
        outs.append((s, ready(k, c.ty)))
    s = st.copy()
    s.log(f"{c.sp} poll_recv_many -> closed")
    c.emit("recv", s, obj=y, res='closed', n=L.ZERO)
    outs.append((s, ready(('n', L.ZERO), c.ty)))
    s = st
    s.log(f"{c.sp} poll_recv_many -> Pending")
    c.emit("recv", s, obj=y, res='pending', n=L.ZERO)
    outs.append((s, pending(c.ty)))
    return c.many(outs)


def one_item(c, s, y, ty):
    e = c.e
    cnt = chan_cnt(e, s, y)
    v = mk_item(e, s, ('chan', y), cnt, ty)
    s.child[(y[1], 'cnt')] = ('n', L.addc(cnt, 1))
    return v


@rxfn('poll_recv', 'try_recv', 'blocking_recv')
def t_recv(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    if y[0] != 'y':
        return NotImplemented
    op = c.name.split('::')[-1]
    outs = []
    closed = (y[1], 'closed') in st.child
    s = st.copy()
    ity = targ(targ(c.ty, 0), 0) if op == 'poll_recv' else targ(c.ty, 0)
    v = one_item(c, s, y, ity)
    s.log(f"{c.sp} {op} -> a message")
    for s in e.models.born(e, s, v):
        c.emit("recv", s, obj=y, res='items', n=L.ONE)
        outs.append((s, ready(some(v), c.ty) if op == 'poll_recv' else ok(v, c.ty)))
    if closed:
        outs = []
    s = st.copy()
    s.log(f"{c.sp} {op} -> closed")
    c.emit("recv", s, obj=y, res='closed', n=L.ZERO)
    if op == 'poll_recv':
        outs.append((s, ready(none(), c.ty)))
    else:
        outs.append((s, err(S(targ(c.ty, 1), 1), c.ty)))
    if closed:
        return c.many(outs)
    s = st
    s.log(f"{c.sp} {op} -> empty")
    c.emit("recv", s, obj=y, res='pending' if op == 'poll_recv' else 'empty', n=L.ZERO)
    if op == 'poll_recv':
        outs.append((s, pending(c.ty)))
    else:
        outs.append((s, err(S(targ(c.ty, 1), 0), c.ty)))
    return c.many(outs)


@model('tokio::sync::oneshot::Receiver::try_recv')
def t_os_try(c):
    e, st = c.e, c.st
    y = strip_refs(e, st, c.a[0])[1]
    if y[0] != 'y':
        return NotImplemented
    outs = []
    s = st.copy()
    x = e.fresh(s, targ(c.ty, 0))
    s.log(f"{c.sp} oneshot -> value")
    c.emit("oneshot", s, obj=y, res='ok', v=x)
    outs.append((s, ok(x, c.ty)))
    s = st.copy()
    s.log(f"{c.sp} oneshot -> sender dropped")
    c.emit("oneshot", s, obj=y, res='err', v=None)
    outs.append((s, err(S(targ(c.ty, 1), 1), c.ty)))
    # still empty: this changes nothing, and waits for nothing
    st.log(f"{c.sp} oneshot -> empty")
    outs.append((st, err(S(targ(c.ty, 1), 0), c.ty)))
    return c.many(outs)


@rxfn('len', 'is_empty', 'capacity', 'max_capacity', 'sender_strong_count', 'sender_weak_count')
def t_rxlen(c):
    """other tasks send at any time: what these return says nothing about what is received next"""
    e, st = c.e, c.st
    if c.name.endswith('is_empty'):
        return c.fin(e.fresh(st, ('bool',)))
    n = e.fresh_int(st)
    if c.name.endswith('max_capacity'):
        e.assume_ge(st, L.addc(n[1], -1))
    return c.fin(n)


@model('tokio::sync::mpsc::Sender::capacity', 'tokio::sync::mpsc::Sender::max_capacity', 'tokio::sync::mpsc::Sender::strong_count', 'tokio::sync::mpsc::UnboundedSender::strong_count')
def t_txlen(c):
    return c.fin(c.e.fresh_int(c.st))


@rxfn('close')
def t_rxclose(c):
    r, y = recv_y(c)
    c.emit("rxclose", obj=y)
    return c.fin(U)


@model('tokio::sync::mpsc::Sender::send')
def t_send(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    f = e.opaque(adt('sendfut'))
    st.prov[f[1]] = ('sendfut', y, c.a[1])
    return c.fin(f)


@model('tokio::sync::mpsc::Sender::reserve', 'tokio::sync::mpsc::Sender::reserve_owned')
def t_reserve(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    f = e.opaque(adt('reservefut'))
    st.prov[f[1]] = ('reservefut', y)
    return c.fin(f)


@model('tokio::sync::mpsc::Sender::try_reserve', 'tokio::sync::mpsc::Sender::try_reserve_owned')
def t_try_reserve(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    outs = []
    if not rx_gone(st, y):
        s = st.copy()
        p = e.opaque(targ(c.ty, 0))
        s.prov[p[1]] = ('permit', y, 'try_send')
        s.log(f"{c.sp} try_reserve -> Ok")
        outs.append((s, ok(p, c.ty)))
    st.log(f"{c.sp} try_reserve -> Err")
    outs.append((st, err(e.opaque(targ(c.ty, 1)), c.ty)))
    return c.many(outs)


@model('tokio::sync::mpsc::Permit::send', 'tokio::sync::mpsc::OwnedPermit::send', 'tokio::sync::mpsc::bounded::Permit::send',
       'tokio::sync::mpsc::bounded::OwnedPermit::send')
def t_permit_send(c):
    e, st = c.e, c.st
    r, v = strip_refs(e, st, c.a[0])
    p = st.prov.get(v[1]) if v[0] == 'y' else None
    if not p or p[0] != 'permit':
        return NotImplemented
    st.log(f"{c.sp} permit send")
    c.emit("send", obj=p[1], msg=c.a[1], how=p[2], res='ok', ref=None)
    return c.fin(U if 'Owned' not in c.name else p[1])


def rx_gone(st, y):
    """has the receiver of this sender been dropped (said so by the harness)?"""
    p = st.prov.get(y[1]) if y[0] == 'y' else None
    return bool(p and p[0] == 'tx' and isinstance(p[1], tuple) and p[1][0] == 'y' and (p[1][1], 'gone') in st.child)


@model('tokio::sync::mpsc::Sender::try_send', 'tokio::sync::mpsc::UnboundedSender::send', 'tokio::sync::oneshot::Sender::send')
def t_try_send(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    how = 'try_send' if 'try_send' in c.name else 'oneshot' if 'oneshot' in c.name else 'unbounded'
    s2 = st.copy()
    gone = rx_gone(st, y)
    if not gone:
        st.log(f"{c.sp} {how} -> Ok")
        c.emit("send", obj=y, msg=c.a[1], how=how, res='ok', ref=r)
    s2.log(f"{c.sp} {how} -> Err")
    c.emit("send", s2, obj=y, msg=c.a[1], how=how, res='err', ref=r)
    if how == 'oneshot':
        ev = c.a[1]
    elif how == 'unbounded':
        ev = S(targ(c.ty, 1), 0, c.a[1])
    else:
        ev = e.opaque(targ(c.ty, 1))
    if gone:
        return c.many([(s2, err(ev, c.ty))])
    return c.many([(st, ok(U, c.ty)), (s2, err(ev, c.ty))])


@rxfn('is_closed')
def t_rxisclosed(c):
    r, y = recv_y(c)
    if y[0] != 'y':
        return NotImplemented
    s2 = c.st.copy()
    c.emit("rxclosed", obj=y)
    if (y[1], 'closed') in s2.child:
        return c.fin(TRUE)
    return c.many([(c.st, TRUE), (s2, FALSE)])


@model('tokio::sync::mpsc::Sender::is_closed', 'tokio::sync::mpsc::UnboundedSender::is_closed', 'tokio::sync::oneshot::Sender::is_closed',
       'tokio_util::sync::PollSender::is_closed',
       'tokio::sync::mpsc::Sender::same_channel', 'tokio::sync::mpsc::UnboundedSender::same_channel')
def t_isclosed(c):
    if c.name == 'tokio::sync::mpsc::Sender::is_closed':
        r, y = recv_y(c)
        if rx_gone(c.st, y):
            return c.fin(TRUE)
        p = c.st.prov.get(y[1]) if y[0] == 'y' else None
        if p and p[0] == 'tx' and p[1][0] == 'y':
            s = c.st.copy()
            s.child[(p[1][1], 'gone')] = ('k', 'gone')
            return c.many([(s, TRUE), (c.st, FALSE)])
    return c.fin(c.e.fresh(c.st, ('bool',)))


# ---------------------------------------------------------------- PollSender
@model('tokio_util::sync::PollSender::new')
def t_psnew(c):
    y = c.e.opaque(c.ty)
    c.st.prov[y[1]] = ('polltx', c.a[0])
    c.st.child[(y[1], 'tx')] = c.a[0]
    return c.fin(y)


@model('tokio_util::sync::PollSender::poll_reserve')
def t_psreserve(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    outs = []
    s = st.copy()
    s.log(f"{c.sp} poll_reserve -> Ok")
    c.emit("reserve", s, obj=y, res='ok')
    outs.append((s, ready(ok(U, targ(c.ty, 0)), c.ty)))
    s = st.copy()
    s.log(f"{c.sp} poll_reserve -> Err (closed)")
    c.emit("reserve", s, obj=y, res='err')
    outs.append((s, ready(err(e.opaque(targ(targ(c.ty, 0), 1)), targ(c.ty, 0)), c.ty)))
    st.log(f"{c.sp} poll_reserve -> Pending")
    c.emit("reserve", obj=y, res='pending')
    outs.append((st, pending(c.ty)))
    return c.many(outs)


@model('tokio_util::sync::PollSender::send_item')
def t_pssend(c):
    e, st = c.e, c.st
    r, y = recv_y(c)
    s2 = st.copy()
    st.log(f"{c.sp} send_item -> Ok")
    c.emit("send", obj=y, msg=c.a[1], how='item', res='ok', ref=r)
    s2.log(f"{c.sp} send_item -> Err (closed)")
    c.emit("send", s2, obj=y, msg=c.a[1], how='item', res='err', ref=r)
    return c.many([(st, ok(U, c.ty)), (s2, err(e.opaque(targ(c.ty, 1)), c.ty))])


@model('tokio_util::sync::PollSender::close', 'tokio_util::sync::PollSender::abort_send')
def t_psclose(c):
    r, y = recv_y(c)
    c.emit("psclose", obj=y, op=c.name.split('::')[-1])
    return c.fin(U if c.ty == ('tuple', ()) else c.e.fresh(c.st, c.ty))


# ---------------------------------------------------------------- wakers
@model('std::task::Context::waker')
def w_waker(c):
    e, st = c.e, c.st
    cell = ('G', 'waker')
    if cell not in st.mem:
        st.mem[cell] = e.opaque(adt('core::task::wake::Waker'))
    return c.fin(('r', ('loc', cell, ()), 'ref'))


@model('std::task::Waker::wake_by_ref', 'std::task::Waker::wake')
def w_wake(c):
    r, y = recv_y(c)
    p = c.st.prov.get(y[1]) if y[0] == 'y' else None
    if p and p[0] == 'awtaken':
        c.emit("atomicwaker", op='wake-taken', ref=None, obj=p[1])
        return c.fin(U)
    c.emit("wake")
    c.st.log(f"{c.sp} wake")
    return c.fin(U)


@model('std::task::Waker::will_wake')
def w_will(c):
    return c.fin(c.e.fresh(c.st, ('bool',)))


@model('futures::task::AtomicWaker::new')
def w_awnew(c):
    y = c.e.opaque(c.ty)
    return c.fin(y)


@model('futures::task::AtomicWaker::register', 'futures::task::AtomicWaker::wake', 'futures::task::AtomicWaker::take')
def w_aw(c):
    r, y = recv_y(c)
    op = c.name.split('::')[-1]
    s = c.st.copy()
    known = any(getattr(m, 'registered', lambda *a: False)(c.st, y) for m in c.e.monitors)
    c.emit("atomicwaker", op=op, ref=r, obj=y)
    c.st.log(f"{c.sp} AtomicWaker::{op}")
    if op == 'take':
        w = c.e.opaque(targ(c.ty, 0))
        c.st.prov[w[1]] = ('awtaken', y)
        return c.many([(c.st, some(w, c.ty))] + ([] if known else [(s, none(c.ty))]))
    return c.fin(U)


@model('std::future::get_context')
def w_getctx(c):
    return c.fin(ctx_ref(c.e, c.st))


@model('std::task::Context::from_waker')
def w_fromwaker(c):
    return c.fin(c.e.opaque(c.ty))


# ---------------------------------------------------------------- futures and streams
@model('std::future::Future::poll', 'futures::Future::poll', 'futures::future::Future::poll', 'futures::FutureExt::poll_unpin')
def f_poll(c):
    e, st = c.e, c.st
    r, v = strip_refs(e, st, c.a[0])
    while v[0] == 's' and v[1][0] == 'adt' and v[1][1] == 'core::pin::Pin':
        r, v = strip_refs(e, st, dict(v[4])[0])
    if v[0] == 's' and v[1][0] == 'coroutine':
        b = e.prog.bodies.get(v[1][1])
        if b is not None:
            if r[0] == 'r':
                e.store(st, r[1], MOVED)
            e.push(st, b, [v, c.a[1]], c.dest, dict(v[1][2]), c.sp, co='co')
            return [st]
    if v[0] == 's' and v[1][0] == 'adt' or (v[0] == 'y' and v[2][0] == 'adt' and e.prog.adts.get(v[2][1], {}).get("local")):
        return NotImplemented      # a local Future: dispatch to its impl
    if v[0] == 'y':
        p = st.prov.get(v[1])
        if p and p[0] == 'sendfut':
            outs = []
            gone = rx_gone(st, p[1])
            if not gone:
                s = st.copy()
                s.log(f"{c.sp} send().await -> Ok")
                c.emit("send", s, obj=p[1], msg=p[2], how='send', res='ok', ref=None)
                outs.append((s, ready(ok(U, targ(c.ty, 0)), c.ty)))
            s = st.copy()
            s.log(f"{c.sp} send().await -> Err (closed)")
            c.emit("send", s, obj=p[1], msg=p[2], how='send', res='err', ref=None)
            outs.append((s, ready(err(S(adt('tokio::sync::mpsc::error::SendError'), 0, p[2]), targ(c.ty, 0)), c.ty)))
            if gone:
                return c.many(outs)
            st.log(f"{c.sp} send().await -> Pending")
            c.emit("fut", obj=v, res='pending', what='send')
            outs.append((st, pending(c.ty)))
            return c.many(outs)
        if p and p[0] == 'reservefut':
            outs = []
            t = targ(c.ty, 0)
            if not rx_gone(st, p[1]):
                s = st.copy()
                q = e.opaque(targ(t, 0))
                s.prov[q[1]] = ('permit', p[1], 'send')
                s.log(f"{c.sp} reserve().await -> Ok")
                outs.append((s, ready(ok(q, t), c.ty)))
                s = st.copy()
                s.log(f"{c.sp} reserve().await -> Pending")
                c.emit("fut", s, obj=v, res='pending', what='send')
                outs.append((s, pending(c.ty)))
            st.log(f"{c.sp} reserve().await -> Err (closed)")
            q = st.prov.get(p[1][1]) if p[1][0] == 'y' else None
            if q and q[0] == 'tx' and q[1][0] == 'y':
                st.child[(q[1][1], 'gone')] = ('k', 'gone')
            outs.append((st, ready(err(e.opaque(targ(t, 1)), t), c.ty)))
            return c.many(outs)
        if p and p[0] == 'connect':
            outs = []
            t = targ(c.ty, 0)
            s = st.copy()
            x = e.opaque(targ(t, 0))
            s.prov[x[1]] = ('connected', p[1])
            s.log(f"{c.sp} connect/bind -> Ok")
            c.emit("connect", s, res='ok', v=x)
            outs.append((s, ready(ok(x, t), c.ty)))
            s = st.copy()
            s.log(f"{c.sp} connect/bind -> Err")
            c.emit("connect", s, res='err', v=None)
            outs.append((s, ready(err(io_err(e, s, 'other'), t), c.ty)))
            st.log(f"{c.sp} connect/bind -> Pending")
            c.emit("fut", obj=v, res='pending', what='connect')
            outs.append((st, pending(c.ty)))
            return c.many(outs)
        if v[2][0] == 'adt' and v[2][1] == 'tokio::sync::oneshot::Receiver':
            outs = []
            s = st.copy()
            x = e.fresh(s, targ(targ(c.ty, 0), 0))
            s.log(f"{c.sp} oneshot -> value")
            c.emit("oneshot", s, obj=v, res='ok', v=x)
            outs.append((s, ready(ok(x, targ(c.ty, 0)), c.ty)))
            s = st.copy()
            s.log(f"{c.sp} oneshot -> sender dropped")
            c.emit("oneshot", s, obj=v, res='err', v=None)
            outs.append((s, ready(err(e.opaque(targ(targ(c.ty, 0), 1)), targ(c.ty, 0)), c.ty)))
            st.log(f"{c.sp} oneshot -> Pending")
            c.emit("oneshot", obj=v, res='pending', v=None)
            outs.append((st, pending(c.ty)))
            return c.many(outs)
    s2 = st.copy()
    ty = targ(c.ty, 0)
    x = e.fresh(st, ty)
    if x[0] == 'y' and x[1] not in st.prov:
        st.prov[x[1]] = ('output', v if v[0] == 'y' else ('?',))
    st.log(f"{c.sp} future -> Ready")
    c.emit("fut", obj=v, ref=r, res='ready', what='poll', v=x)
    s2.log(f"{c.sp} future -> Pending")
    c.emit("fut", s2, obj=v, ref=r, res='pending', what='poll')
    return c.many([(st, ready(x, c.ty)), (s2, pending(c.ty))])


@model('futures::Stream::poll_next', 'futures::stream::Stream::poll_next', 'futures::StreamExt::poll_next_unpin', 'futures_core::Stream::poll_next')
def f_poll_next(c):
    e, st = c.e, c.st
    r, v = strip_refs(e, st, c.a[0])
    if v[0] == 's' and v[1][0] == 'adt' or (v[0] == 'y' and v[2][0] == 'adt' and e.prog.adts.get(v[2][1], {}).get("local")):
        return NotImplemented
    h = e.models.poll_hook(c, r, v)
    if h is not NotImplemented:
        return h
    outs = []
    s = st.copy()
    it = targ(targ(c.ty, 0), 0)
    x = e.fresh(s, it)
    x = mark_item(e, s, x, v)
    s.log(f"{c.sp} poll_next -> item")
    c.emit("stream", s, obj=v, ref=r, res='item', v=x)
    outs.append((s, ready(some(x, targ(c.ty, 0)), c.ty)))
    s = st.copy()
    s.log(f"{c.sp} poll_next -> end")
    c.emit("stream", s, obj=v, ref=r, res='none', v=None)
    outs.append((s, ready(none(targ(c.ty, 0)), c.ty)))
    st.log(f"{c.sp} poll_next -> Pending")
    c.emit("stream", obj=v, ref=r, res='pending', v=None)
    outs.append((st, pending(c.ty)))
    return c.many(outs)


def mark_item(e, st, x, v):
    return x


def e_hook(c, op, r, v):
    f = getattr(c.e.models, 'coll_hook', None)
    return f(c, op, r, v) if f else NotImplemented


@model('futures::stream::FuturesUnordered::push', 'futures::stream::SelectAll::push', 'futures::stream::FuturesUnordered::len',
       'futures::stream::FuturesUnordered::is_empty', 'futures::stream::SelectAll::is_empty', 'futures::stream::SelectAll::len',
       'futures::stream::FuturesUnordered::clear', 'futures::stream::SelectAll::clear')
def f_push(c):
    op = c.name.split('::')[-1]
    r, v = recv_y(c)
    h = e_hook(c, op, r, v)
    if h is not NotImplemented:
        return h
    if op in ('push', 'clear'):
        c.emit("fu", op=op, obj=v, ref=r, v=c.a[1] if len(c.a) > 1 else None)
        return c.fin(U)
    c.emit("fu", op=op, obj=v, ref=r, v=None)
    return c.fin(c.e.fresh(c.st, c.ty))


@model('tokio::spawn', 'tokio::runtime::Handle::spawn', 'tokio::task::spawn')
def f_spawn(c):
    v = c.a[-1]
    h = None
    if len(c.a) > 1:
        h = c.a[0] if c.a[0][0] == 'y' else recv_y(c)[1]
        while h[0] == 'y' and (c.st.prov.get(h[1]) or ('',))[0] == 'clone':
            h = c.st.prov[h[1]][1]
    c.emit("spawn", v=v, on=h)
    c.st.log(f"{c.sp} spawn")
    y = c.e.opaque(c.ty)
    c.st.prov[y[1]] = ('task', v)
    return c.fin(y)


@model('tokio::task::JoinHandle::abort', 'tokio::task::AbortHandle::abort')
def f_abort(c):
    c.emit("abort", task=recv_y(c)[1])
    return c.fin(U)


@model('tokio::task::JoinHandle::abort_handle', 'tokio::task::JoinHandle::is_finished', 'tokio::task::JoinHandle::id')
def f_handle(c):
    return c.fin(c.e.fresh(c.st, c.ty))


@model('tokio::net::TcpStream::connect', 'tokio::net::TcpListener::bind')
def f_connect(c):
    e = c.e
    y = e.opaque(adt('connectfut'))
    a = c.a[0]
    if a[0] == 's' and a[1][0] == 'tuple' and len(a[4]) == 2:
        import m_std
        f = dict(a[4])
        a = m_std.sa_join(e, c.st, f[0], f[1]) or a
    c.st.prov[y[1]] = ('connect', a)
    return c.fin(y)


# ---------------------------------------------------------------- the user's codecs and reactors
def unresolved(c):
    return not (c.f[4] and c.f[4] in c.e.prog.bodies)


@model('types::Serializer::encode', 'protosocket::Serializer::encode')
def u_encode(c):
    e, st = c.e, c.st
    if not unresolved(c):
        return None
    buf = cref(c, 2)
    if buf is None:
        return NotImplemented
    br, bv = buf
    msg = c.a[1]
    p = st.prov.get(msg[1]) if msg[0] == 'y' else None
    n = e.fresh_int(st)
    clean = e.entails_eq(st, clen(bv))
    e.assume_ge(st, L.sub(n[1], clen(bv)))
    idx = p[2] if p and p[0] == 'item' else None
    c.emit("encode", msg=msg, item=p, buf=bv, loc=br[1], n=n[1], clean=clean)
    if idx is not None and clean:
        ct = ('bytes', ('enc', p[1], idx, 'whole'))
    else:
        ct = ('bytes', 'junk')
    e.store(st, br[1], ('c', bv[1], n, None, ct))
    return c.fin(U)


@model('types::Deserializer::decode', 'protosocket::Deserializer::decode')
def u_decode(c):
    e, st = c.e, c.st
    if not unresolved(c):
        return None
    r, y = recv_y(c)
    sl = slice_of(e, st, c.a[1]) if c.a[1][0] in ('r', 'sl') else None
    if sl is None:
        c.emit("decode", sl=None, obj=y)
        return c.fin(e.fresh(st, c.ty))
    c.emit("decode", sl=sl, obj=y)
    outs = []
    n = sl_len(sl)
    DE = 'protosocket::types::DeserializeError'
    # a message: consumes at most what it was given
    s = st.copy()
    k = e.fresh_int(s)
    if e.assume_ge(s, L.sub(n, k[1])):
        key = ('decn', y[1])
        cnt = s.child.get((y[1], 'decn'), ('n', L.ZERO))[1]
        ety = targ2(targ(c.ty, 0), 1)
        m = mk_item(e, s, ('dec', y), cnt, ety)
        s.child[(y[1], 'decn')] = ('n', L.addc(cnt, 1))
        s.log(f"{c.sp} decode -> message")
        c.emit("decoded", s, res='msg', n=k[1], sl=sl, obj=y)
        outs.append((s, ok(S(('tuple', ()), 0, k, m), c.ty)))
    s = st.copy()
    k = e.fresh_int(s)
    s.log(f"{c.sp} decode -> Incomplete")
    c.emit("decoded", s, res='incomplete', n=k[1], sl=sl, obj=y)
    outs.append((s, err(S(adt(DE), 0, k), c.ty)))
    s = st.copy()
    s.log(f"{c.sp} decode -> Invalid")
    c.emit("decoded", s, res='invalid', n=None, sl=sl, obj=y)
    outs.append((s, err(S(adt(DE), 1), c.ty)))
    for avail in (True, False):
        s = st.copy()
        k = e.fresh_int(s)
        if e.assume_ge(s, L.sub(n, k[1]) if avail else L.addc(L.sub(k[1], n), -1)):
            s.log(f"{c.sp} decode -> Skip ({'available' if avail else 'beyond the buffer'})")
            c.emit("decoded", s, res='skip' if avail else 'skipwait', n=k[1], sl=sl, obj=y)
            outs.append((s, err(S(adt(DE), 2, k), c.ty)))
    return c.many(outs)


@model('types::MessageReactor::on_inbound_messages', 'protosocket::MessageReactor::on_inbound_messages')
def u_react(c):
    e, st = c.e, c.st
    if not unresolved(c):
        return None
    r, y = recv_y(c)
    c.emit("react", it=c.a[1], obj=y)
    RS = 'protosocket::types::ReactorStatus'
    s2 = st.copy()
    s2.log(f"{c.sp} reactor -> Disconnect")
    c.emit("reacted", s2, res='disconnect')
    st.log(f"{c.sp} reactor -> Continue")
    c.emit("reacted", res='continue')
    return c.many([(st, S(adt(RS), 0)), (s2, S(adt(RS), 1))])


@model('message::Message::message_id', 'message::Message::control_code', 'protosocket_rpc::Message::message_id',
       'protosocket_rpc::Message::control_code')
def u_msg(c):
    e, st = c.e, c.st
    if not unresolved(c):
        return None
    r, y = recv_y(c)
    if y[0] != 'y':
        return c.fin(e.fresh(st, c.ty))
    k = (c.name.split('::')[-1], y[1])
    if k not in st.memo:
        v = e.fresh(st, c.ty)
        st.memo[k] = v
    c.emit("msg", op=k[0], obj=y, v=st.memo[k])
    return c.fin(st.memo[k])


@model('message::Message::cancelled', 'message::Message::ended', 'protosocket_rpc::Message::cancelled', 'protosocket_rpc::Message::ended')
def u_mk(c):
    e, st = c.e, c.st
    if not unresolved(c):
        return None
    y = e.opaque(c.ty)
    st.prov[y[1]] = (c.name.split('::')[-1], c.a[0])
    return c.fin(y)


@model('message::Message::set_message_id')
def u_setid(c):
    if not unresolved(c):
        return None
    r, y = recv_y(c)
    if y[0] == 'y':
        c.st.memo[('message_id', y[1])] = c.a[1]
    return c.fin(U)
