"""How connections come to be: the two listeners, the two client constructors, the reactor that feeds the RPC
server (C14, C19, C20).

Connection::new is observed at its call (its own behaviour is C01-C08); everything it is given must be what the
accepted or connected socket, the configuration and the queue on the other side require.
"""
import lin as L
import models as M
from eng import Engine, St, U, UNKNOWN
from models import Models, adt, clen
from conn import find_ctor, find_inherent, find_trait, argname, CONN
from rpcc import adt_id, reach, ready_of, NONE
from rpcs import cells_of

SELF = ('loc', ('G', 'self'), ())
CFG = ('loc', ('G', 'config'), ())
SRV = [None]       # the type of the per-connection RPC server


class WireModels(Models):
    def __init__(self, prog):
        super().__init__()
        self.ext_hooks = [self.ext]
        SRV[0] = adt_id(prog, 'RpcConnectionServer')
        b = find_ctor(prog, CONN)
        self.cnew = b
        self.roles = {}
        if b is not None:
            ints = []
            for i in range(1, b.argc + 1):
                t = b.locals[i]
                n = argname(b, i)
                if t == ('int', 'usize'):
                    ints.append((i - 1, n))
                elif t[0] == 'adt' and t[1].endswith('TcpStream'):
                    self.roles['stream'] = i - 1
                elif t[0] == 'adt' and t[1].endswith('SocketAddr'):
                    self.roles['addr'] = i - 1
                elif t[0] == 'adt' and t[1].endswith('Receiver'):
                    self.roles['rx'] = i - 1
                elif t[0] in ('alias', 'param') and 'Reactor' in str(t):
                    self.roles['reactor'] = i - 1
            for k, (i, n) in enumerate(ints):
                self.roles['queue' if 'queue' in n else 'buf' if 'buf' in n else ('buf', 'queue')[k % 2]] = i

    def call(self, e, st, f, args, dest, dty, sp, diverges):
        if self.cnew is not None and self.cnew.id in (f[1], f[4]):
            y = e.opaque(dty)
            st.prov[y[1]] = ('conn',)
            for k, i in self.roles.items():
                st.child[(y[1], k)] = args[i]
            st.log(f"{sp} Connection::new")
            e.emit(st, 'newconn', obj=y, span=sp)
            return e.finish(st, dest, y, diverges)
        return super().call(e, st, f, args, dest, dty, sp, diverges)

    def ext(self, c):
        """the user's connector or service, or a parser: what it returns may hold what it was given"""
        e, st = c.e, c.st
        n = c.name.split('::')[-1]
        if n not in ('new_reactor', 'new_connection_service', 'serializer', 'deserializer', 'parse'):
            return None
        if n == 'parse':
            s = st.copy()
            y = e.opaque(M.targ(c.ty, 0))
            st.prov[y[1]] = ('parsed',)
            return c.many([(st, M.ok(y, c.ty)), (s, M.err(e.opaque(M.targ(c.ty, 1)), c.ty))])
        y = e.opaque(c.ty)
        st.prov[y[1]] = ('made', n)
        for i, a in enumerate(c.a[1:]):
            st.child[(y[1], i)] = a
        return c.fin(y)


def parts_of(v):
    out, work = [], [v]
    while work:
        x = work.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] in ('y', 's'):
            out.append(x)
        if x[0] == 's' and not (x[1][0] == 'adt' and x[1][1] == SRV[0]):
            work += [y for y in dict(x[4]).values()]
    return out


class WireMon:
    def __init__(self):
        self.count = {}
        self.pid = 'C19'
        self.rt = None

    def n(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def rep(self, e, st, k, msg, span=None):
        e.report(self.pid, k, msg, st, span)

    def init(self, e, st, buf, queue):
        st.mon.update(buf=buf, queue=queue, stream=NONE, addr=NONE, opt=NONE, conn=NONE, connsp=NONE, srv=NONE, acc=NONE, caps=NONE, fail=NONE)

    def on_accept(self, e, st, res, stream, addr, span):
        self.settle(e, st, span)
        self.n('accept-' + res)
        if res != 'pending':
            st.mon['any'] = ('k', 'yes')
        st.mon['acc'] = ('k', res)
        if res == 'ok':
            st.mon.update(stream=stream, addr=addr, opt=NONE, conn=NONE, connsp=NONE, srv=NONE)

    def on_connect(self, e, st, res, v, span):
        self.n('connect-' + res)
        if res == 'ok':
            st.mon['stream'] = v
            p = st.prov[v[1]]
            st.mon['addr'] = p[1]
        else:
            st.mon['fail'] = ('k', 'connect')

    def on_io(self, e, st, op, what, res, obj, span, room=None):
        if op == 'sockopt' and res == 'err':
            st.mon['opt'] = ('k', 'err')
            st.mon['fail'] = ('k', 'opt')

    def on_channel(self, e, st, kind, tx, rx, cap, span):
        if kind == 'mpsc' and cap is not None:
            st.child[(rx[1], 'cap')] = cap

    def on_newconn(self, e, st, obj, span):
        self.n('newconn')
        g = lambda k: st.child.get((obj[1], k), NONE)
        if g('stream') != st.mon['stream'] or st.mon['stream'] == NONE:
            self.rep(e, st, 'wrong stream', "a connection is built on something other than the socket that was accepted or connected", span)
        if g('addr') != st.mon['addr']:
            self.rep(e, st, 'wrong address', "a connection is built with an address that is not its peer's", span)
        for k, what in (('buf', 'maximum buffer length'), ('queue', 'maximum number of queued messages')):
            v, w = g(k), st.mon[k]
            if not (v[0] == 'n' and e.entails_eq(st, L.sub(v[1], w[1]))):
                self.rep(e, st, 'wrong ' + k, f"a connection does not get the configured {what}", span)
        rx = g('rx')
        p = st.prov.get(rx[1]) if rx[0] == 'y' else None
        if p != ('rx', 'mpsc'):
            self.rep(e, st, 'wrong queue', "a connection does not get the receiving end of a fresh queue", span)
        else:
            cap = st.child.get((rx[1], 'cap'), NONE)
            if not (cap[0] == 'n' and e.entails_eq(st, L.sub(cap[1], st.mon['queue'][1]))):
                self.rep(e, st, 'wrong capacity', "the outbound queue of a connection does not have the configured capacity", span)
        if st.mon['conn'] != NONE:
            self.rep(e, st, 'two connections', "two connections are built on one socket", span)
        st.mon['conn'] = obj

    def on_spawn(self, e, st, v, span, on=None):
        self.n('spawn')
        if self.rt is not None and on != self.rt:
            self.rep(e, st, 'wrong runtime', "a connection is not spawned on the runtime that was given for it", span)
        # the task itself, or an async block or closure around it
        held = parts_of(v) if v[0] == 's' and v[1][0] in ('coroutine', 'closure') else [v]
        if v[0] == 's' and v[1][0] == 'coroutine' and v[1][1] in e.prog.bodies:
            # one of them is awaited to its end before the other is polled at all
            aw = set()
            for _, t in e.prog.bodies[v[1][1]].bbs:
                f = t['f'][1].get('fn') if t['k'] == 'call' and t['f'][0] == 'k' else None
                if f and f.get('sn', '').endswith('IntoFuture::into_future') and f['a'] and f['a'][0][0] == 'adt' and f['a'][0][1] in (CONN, SRV[0]):
                    aw.add(f['a'][0][1])
            if len(aw) > 1:
                self.rep(e, st, 'not concurrent', "a connection and its RPC server are awaited one after the other: while one runs the other is not driven", span)
        for v in held:
            self.spawned(e, st, v, span)

    def on_abort(self, e, st, task, span):
        self.rep(e, st, 'aborted', "the task that drives a connection is aborted", span)

    def spawned(self, e, st, v, span):
        if v[0] == 'y' and v == st.mon['conn']:
            if st.mon['connsp'] != NONE:
                self.rep(e, st, 'spawned twice', "a connection is spawned twice", span)
            st.mon['connsp'] = ('k', 'yes')
            self.n('spawn-conn')
        elif v[0] == 's' and v[1][0] == 'adt' and v[1][1] == SRV[0]:
            st.mon['srv'] = v
            self.n('spawn-rpc')

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        self.rep(e, st, 'panic', f"establishing a connection may panic ({kind})", span)

    def txs(self, st, v):
        """receivers whose sender is reachable from v"""
        out = set()
        for y in reach(st, [v]):
            p = st.prov.get(y)
            if p and p[0] == 'tx':
                out.add(p[1])
        return out

    def settle(self, e, st, span):
        """the accepted socket must be served by now"""
        m = st.mon
        if m['stream'] == NONE or self.pid != 'C19':
            return
        if m['opt'][1] != 'err':
            if m['connsp'] == NONE:
                self.rep(e, st, 'not served', "an accepted socket is not served by a spawned connection", span)
            else:
                c = m['conn']
                rx, reactor = st.child.get((c[1], 'rx'), NONE), st.child.get((c[1], 'reactor'), NONE)
                if not self.rpc:
                    if rx not in self.txs(st, reactor):
                        self.rep(e, st, 'reactor without its queue', "the reactor of a connection does not get that connection's outbound queue", span)
                elif m['srv'] == NONE:
                    self.rep(e, st, 'no rpc server', "an accepted connection has no RPC server", span)
                else:
                    ys = reach(st, [m['srv']])
                    if rx not in self.txs(st, m['srv']):
                        self.rep(e, st, 'responses unwired', "the RPC server of a connection does not send to that connection", span)
                    if not any(r[1] in ys for r in self.txs(st, reactor)):
                        self.rep(e, st, 'requests unwired', "the requests of a connection do not reach its RPC server", span)
                    made = [y for y in ys if st.prov.get(y) == ('made', 'new_connection_service')]
                    if not any(st.child.get((y, 0)) == m['addr'] for y in made):
                        self.rep(e, st, 'wrong service', "the RPC server of a connection does not run the service made for that peer", span)
            self.n('served')
        m.update(stream=NONE, addr=NONE, opt=NONE, conn=NONE, connsp=NONE, srv=NONE)


def co_run(e, states):
    """run async functions from their first poll to completion"""
    cos = []
    bad = []
    for s, v in e.run(states):
        if v[0] == 's' and v[1][0] == 'coroutine' and v[1][1] in e.prog.bodies:
            e.push(s, e.prog.bodies[v[1][1]], [v, M.ctx_ref(e, s)], None, dict(v[1][2]), co='co')
            cos.append(s)
        else:
            bad.append(s)
    out = []
    for s, v in e.run(cos) if cos else []:
        if 'cancelled' in s.flags or not (v[0] == 's' and v[1][1] == M.POLL and v[2] == 0):
            continue
        out.append((s, dict(v[4])[0]))
    return out, bad


def setters(e, prog, aid, names, states, cell):
    """run fn set(&mut self, n) with fresh n; names: [(method, ghost)]"""
    for name, val in names:
        b = find_inherent(prog, aid, name)
        out = []
        for s in states:
            s.fr = ()
            e.push(s, b, [('r', cell, 'mut'), s.mon[val]], None, {})
            out += [t for t, _ in e.run(s)]
        states = out
    return states


def listener(prog, crate, name, rpc, max_steps=200000):
    aid = adt_id(prog, name, crate)
    if aid is None:
        return None, None, f'{crate}::{name}'
    new, poll = find_ctor(prog, aid), find_trait(prog, aid, 'Future', 'poll')
    sets = [('set_max_buffer_length', 'buf'), ('set_max_queued_outbound_messages', 'queue')]
    for n, _ in sets:
        if find_inherent(prog, aid, n) is None:
            return None, None, f'{name}::{n}'
    if new is None or poll is None:
        return None, None, f'{name}::new / Future'
    mon = WireMon()
    mon.rpc = rpc
    mon.pid = 'bind'
    models = WireModels(prog)
    if models.cnew is None:
        return None, None, 'Connection::new'
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    mon.init(e, st, e.fresh_int(st), e.fresh_int(st))
    args = [e.fresh(st, new.locals[i]) for i in range(1, new.argc + 1)]
    addr = next((a for i, a in enumerate(args) if new.locals[i + 1][0] == 'adt' and new.locals[i + 1][1].endswith('SocketAddr')), None)
    mon.rt = handle_arg(new, args)
    e.push(st, new, args, None, {})
    res, bad = co_run(e, st)
    if bad:
        e.undecide('C19', 'new', 'the constructor is not an async function', bad[0])
    mon.pid = 'C19'
    work = []
    for s, v in res:
        if v[0] == 's' and v[1][1] == M.RESULT and v[2] == 0:
            mon.n('bound')
            s.mem[SELF[1]] = dict(v[4])[0]
            if not any(s.prov.get(y) == ('connected', addr) for y in reach(s, [dict(v[4])[0]])):
                mon.rep(e, s, 'wrong bind', "the server does not listen on the address it was given", new.sp)
            s.mon.update(stream=NONE, addr=NONE, opt=NONE, fail=NONE)
            work.append(s)
        elif s.mon['fail'] == NONE:
            mon.rep(e, s, 'refuses to start', "the server fails to start although its address could be bound", new.sp)
    work = setters(e, prog, aid, sets, work, SELF)
    rounds = 0
    while work:
        got = {}
        for s in work:
            s.flags = s.flags & {UNKNOWN}
            s.mon['acc'] = NONE
            s.mon['woke'] = s.mon['any'] = NONE
            s.mon.setdefault('idle', NONE)
            r = e.merge(s, ('entry',), True)
            if r is not None:
                got[r[:2]] = r[2]
        work = []
        for s in got.values():
            rounds += 1
            s.fr = ()
            e.push(s, poll, [('r', SELF, 'mut'), M.ctx_ref(e, s)], None, {})
            for t, v in e.run(s):
                x = ready_of(v)
                e.stats["obl"].add((name, 'exit', 'pending' if x is None else 'ready', t.mon['acc'][1]))
                if x is None:
                    mon.n('exit-pending')
                    mon.settle(e, t, poll.sp)
                    if t.mon['acc'][1] != 'pending' and t.mon['woke'][1] != 'yes':
                        mon.rep(e, t, 'deaf', "the server sleeps without waiting for connections", poll.sp)
                    if t.mon['woke'] == NONE or t.mon['any'] != NONE:
                        t.mon['idle'] = NONE
                    elif t.mon['idle'] == NONE:
                        t.mon['idle'] = ('k', 'yes')
                    else:
                        e.report('C25', 'listener spins', "the server wakes itself again and again although nobody connects", t, poll.sp)
                    work.append(t)
                else:
                    mon.n('exit-ready')
                    mon.rep(e, t, 'server ends', "the server stops accepting connections because of one connection's failure", poll.sp)
    return e, mon, rounds


def on_wake(self, e, st, span):
    st.mon['woke'] = ('k', 'yes')


WireMon.on_wake = on_wake


def handle_arg(b, args):
    return next((a for i, a in enumerate(args) if b.locals[i + 1][0] == 'adt' and b.locals[i + 1][1].split('::')[-1] == 'Handle'), None)


def rpc_connect(prog, max_steps=100000):
    """protosocket_rpc::client::connect"""
    b = next((x for x in prog.bodies.values() if not x.ext and x.self is None and x.id.startswith('protosocket_rpc::client') and x.id.split('::')[-1] == 'connect'), None)
    cfg = adt_id(prog, 'Configuration')
    if b is None or cfg is None:
        return None, None, 'protosocket_rpc::client::connect'
    sets = [('max_buffer_length', 'buf'), ('max_queued_outbound_messages', 'queue')]
    for n, _ in sets:
        if find_inherent(prog, cfg, n) is None:
            return None, None, 'Configuration::' + n
    mon = WireMon()
    mon.pid, mon.rpc = 'C20', True
    models = WireModels(prog)
    if models.cnew is None:
        return None, None, 'Connection::new'
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    mon.init(e, st, e.fresh_int(st), e.fresh_int(st))
    st.mem[CFG[1]] = e.fresh(st, adt(cfg))
    for s in setters(e, prog, cfg, sets, [st], CFG):
        addr = e.fresh(s, b.locals[1])
        s.fr = ()
        e.push(s, b, [addr, ('r', CFG, 'ref')], None, {})
        res, bad = co_run(e, s)
        if bad:
            e.undecide('C20', 'connect', 'connect is not an async function', bad[0])
        for t, v in res:
            okr = v[0] == 's' and v[2] == 0
            e.stats["obl"].add(('connect', okr, t.mon['fail'][1]))
            if not okr:
                mon.n('err')
                if t.mon['fail'] == NONE:
                    mon.rep(e, t, 'fails', "connect fails although the connection was established", b.sp)
                continue
            mon.n('ok')
            pair = dict(v[4])[0]
            conn = next((x for x in dict(pair[4]).values() if x == t.mon['conn']), None) if pair[0] == 's' else None
            cli = next((x for x in dict(pair[4]).values() if x != t.mon['conn']), None) if pair[0] == 's' else None
            if t.mon['addr'] != addr:
                mon.rep(e, t, 'wrong peer', "the client connects to something other than the given address", b.sp)
            if conn is None or cli is None:
                mon.rep(e, t, 'no connection', "connect succeeds without the connection it made", b.sp)
                continue
            rx, reactor = t.child.get((conn[1], 'rx'), NONE), t.child.get((conn[1], 'reactor'), NONE)
            if rx not in mon.txs(t, cli):
                mon.rep(e, t, 'requests unwired', "requests of the client are not sent on its connection", b.sp)
            if not shared(t, cli, reactor):
                mon.rep(e, t, 'responses unwired', "responses on the connection do not reach the client's calls", b.sp)
    return e, mon, 1


def shared(st, a, b):
    return any(c for c in cells_of(st, [a]) & cells_of(st, [b])) or bool(reach(st, [a]) & reach(st, [b]))


def register_client(prog, max_steps=100000):
    """protosocket_prost::ClientRegistry"""
    aid = adt_id(prog, 'ClientRegistry', 'protosocket_prost')
    if aid is None:
        return None, None, 'protosocket_prost::ClientRegistry'
    b, new = find_inherent(prog, aid, 'register_client'), find_ctor(prog, aid)
    sets = [('set_max_read_buffer_length', 'buf'), ('set_max_queued_outbound_messages', 'queue')]
    for n, _ in sets:
        if find_inherent(prog, aid, n) is None:
            return None, None, 'ClientRegistry::' + n
    if b is None or new is None:
        return None, None, 'ClientRegistry::new / register_client'
    mon = WireMon()
    mon.pid, mon.rpc = 'C20', False
    models = WireModels(prog)
    if models.cnew is None:
        return None, None, 'Connection::new'
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    mon.init(e, st, e.fresh_int(st), e.fresh_int(st))
    args = [e.fresh(st, new.locals[i]) for i in range(1, new.argc + 1)]
    mon.rt = handle_arg(new, args)
    e.push(st, new, args, None, {})
    work = []
    for s, v in e.run(st):
        s.mem[SELF[1]] = v
        work.append(s)
    for s in setters(e, prog, aid, sets, work, SELF):
        args = [e.fresh(s, b.locals[i]) for i in range(2, b.argc + 1)]
        reactor = args[-1]
        s.fr = ()
        e.push(s, b, [('r', SELF, 'ref')] + args, None, {})
        res, bad = co_run(e, s)
        if bad:
            e.undecide('C20', 'register_client', 'register_client is not an async function', bad[0])
        for t, v in res:
            okr = v[0] == 's' and v[2] == 0
            e.stats["obl"].add(('register_client', okr, t.mon['fail'][1]))
            if not okr:
                mon.n('err')
                if t.mon['fail'] == NONE and t.mon['stream'] != NONE:
                    mon.rep(e, t, 'fails', "registering a client fails although its connection was established", b.sp)
                continue
            mon.n('ok')
            tx, conn = dict(v[4])[0], t.mon['conn']
            a = t.mon['addr']
            if not (a[0] == 'y' and t.prov.get(a[1]) == ('parsed',)):
                mon.rep(e, t, 'wrong peer', "the client connects to something other than the given address", b.sp)
            if conn == NONE or t.mon['connsp'] == NONE:
                mon.rep(e, t, 'not driven', "a client is registered without its connection being driven", b.sp)
                continue
            if t.child.get((conn[1], 'rx'), NONE) not in mon.txs(t, tx):
                mon.rep(e, t, 'requests unwired', "messages sent by the client do not reach its connection", b.sp)
            if t.child.get((conn[1], 'reactor'), NONE) != reactor:
                mon.rep(e, t, 'responses unwired', "responses do not reach the client's reactor", b.sp)
    return e, mon, 1


# ---------------------------------------------------------------- the reactor that feeds the RPC server
class SubMon:
    def __init__(self):
        self.count = {}

    def n(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def is_in(self, st, v):
        if v[0] != 'y':
            return None
        p = st.prov.get(v[1])
        return p[2][1] if p and p[0] == 'item' and p[1] == ('inbound',) else None

    def on_send(self, e, st, obj, msg, how, res, ref, span):
        self.n('submit-' + res)
        i = self.is_in(st, msg)
        if i is None:
            e.report('C14', 'submitter: foreign', "something other than a received message is submitted to the RPC server", st, span)
            return
        if not e.entails_eq(st, L.sub(i, st.mon['nx'][1])):
            e.report('C14', 'submitter: order', "received messages are submitted to the RPC server out of order, twice, or not at all", st, span)
        if st.mon['lost'][1] == 'yes':
            e.report('C14', 'submitter: gap', "messages are submitted after one was lost", st, span)
        st.mon['nx'] = ('n', e.N(st, L.addc(i, 1)))
        if res != 'ok':
            st.mon['lost'] = ('k', 'yes')

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        e.report('C14', 'submitter: panic', f"submitting a request may panic ({kind})", st, span)


def submitter(prog, max_steps=50000):
    aid = adt_id(prog, 'RpcSubmitter')
    if aid is None:
        return None, None, 'RpcSubmitter'
    new, react = find_ctor(prog, aid), find_trait(prog, aid, 'MessageReactor', 'on_inbound_messages')
    if new is None or react is None:
        return None, None, 'RpcSubmitter::new / MessageReactor'
    mon = SubMon()
    e = Engine(prog, Models(), [mon], max_steps)
    st = St()
    st.mon.update(nx=('n', L.ZERO), lost=('k', 'no'))
    e.push(st, new, [], None, {})
    for s, v in e.run(st):
        fs = dict(v[4]) if v[0] == 's' else {}
        me = next((x for x in fs.values() if x[0] == 's' and x[1][0] == 'adt' and x[1][1] == aid), None)
        if me is None:
            e.undecide('C14', 'submitter', 'the constructor of the submitter is not understood', s)
            continue
        s.mem[SELF[1]] = me
        n = e.fresh_int(s)
        it = ('it', 'own', ('c', 'vec', n, None, ('seq', ('inbound',), ('n', L.ZERO), '+', None)), 'into')
        s.fr = ()
        s.mon['n'] = n
        e.push(s, react, [('r', SELF, 'mut'), it], None, {})
        for t, r in e.run(s):
            mon.n('react')
            vs = e.variants(r[1]) if r[0] == 's' and r[1][0] == 'adt' else None
            name = vs[r[2]][0] if vs else '?'
            e.stats["obl"].add(('submitter', name, t.mon['lost'][1]))
            if t.mon['lost'][1] == 'yes':
                if name != 'Disconnect':
                    e.report('C14', 'submitter: silent loss', "requests are lost without ending the connection", t, react.sp)
            else:
                if name != 'Continue':
                    e.report('C14', 'submitter: disconnects', "the connection is ended although its RPC server is there", t, react.sp)
                if not e.entails_eq(t, L.sub(t.mon['n'][1], t.mon['nx'][1])):
                    e.report('C14', 'submitter: skipped', "received messages are not submitted to the RPC server", t, react.sp)
    return e, mon, 1
