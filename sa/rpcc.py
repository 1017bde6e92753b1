"""The RPC client: reactor, registry and calls under every history of sending, dropping, inbound batches and
connection loss (C09-C12), then the outcomes a caller sees (C13).

One RPC id K is tracked (arbitrary, so what holds for it holds for every id).  The environment repeatedly picks:
send a unary / streaming call with id K, drop the call, deliver a batch of inbound messages, drop the reactor.

Ghost state (st.mon):
  K     the tracked id                      S     what the reactor owes K's caller: none | tok | dead
  tok   the sender half of K's completion   call  the kind of call held by the caller, or none
  owe   what the inbound message under way requires: none | deliver m | close
"""
import lin as L
import models as M
import m_std
from eng import Engine, St, Frame, SFrame, U, MOVED, UNKNOWN
from ir import subst, tystr
from models import Models, adt, clen, with_, S as mkS
from conn import find_inherent, find_ctor, find_trait, argname

ERROR = 'protosocket_rpc::error::Error'
CODE = 'protosocket_rpc::message::ProtosocketControlCode'
SELF, CLI, CALL = [('loc', ('G', x), ()) for x in ('self', 'client', 'call')]
NONE = ('k', 'none')


def adt_id(prog, last, crate='protosocket_rpc'):
    for i in prog.adts:
        if i.startswith(crate + '::') and i.split('::')[-1] == last:
            return i
    c = [i for i in prog.adts if i.startswith(crate + '::') and role(prog, i, last)]
    return c[0] if len(c) == 1 else None


def strip_ty(t):
    while t[0] == 'ref':
        t = t[2] if isinstance(t[2], tuple) else t[1]
    return t


def role(prog, i, last):
    """does this type play the part of the (renamed, private) type called `last`?"""
    b = find_ctor(prog, i)
    if b is None:
        return False
    args = [strip_ty(b.locals[k]) for k in range(1, b.argc + 1)]
    names = [t[1] for t in args if t[0] == 'adt']

    def impl(tr, f):
        return find_trait(prog, i, tr, f) is not None
    if last == 'RpcConnectionServer':
        return impl('Future', 'poll') and any(n.endswith('UnboundedReceiver') for n in names) and any(n.endswith('Sender') for n in names)
    if last == 'RpcSubmitter':
        return impl('MessageReactor', 'on_inbound_messages') and not args
    if last == 'RpcCompletionReactor':
        return impl('MessageReactor', 'on_inbound_messages') and bool(args)
    if last == 'UnaryCompletion':
        return impl('Future', 'poll') and any('oneshot' in n for n in names)
    if last == 'StreamingCompletion':
        return impl('Stream', 'poll_next') and any(n.endswith('UnboundedReceiver') for n in names)
    return False


def anchors(prog):
    """{role: body} or the name of what is missing"""
    out = {}
    for k, a, n in (('reactor', 'RpcCompletionReactor', None), ('client', 'RpcClient', None), ('unary', 'UnaryCompletion', None), ('stream', 'StreamingCompletion', None)):
        out[k] = adt_id(prog, a)
        if out[k] is None:
            return None, a
    for k, b, what in (('rnew', find_ctor(prog, out['reactor']), 'RpcCompletionReactor::new'),
                       ('cnew', find_ctor(prog, out['client']), 'RpcClient::new'),
                       ('send_unary', find_inherent(prog, out['client'], 'send_unary'), 'RpcClient::send_unary'),
                       ('send_streaming', find_inherent(prog, out['client'], 'send_streaming'), 'RpcClient::send_streaming'),
                       ('is_alive', find_inherent(prog, out['client'], 'is_alive'), 'RpcClient::is_alive'),
                       ('react', find_trait(prog, out['reactor'], 'MessageReactor', 'on_inbound_messages'), 'MessageReactor for RpcCompletionReactor'),
                       ('upoll', find_trait(prog, out['unary'], 'Future', 'poll'), 'Future for UnaryCompletion'),
                       ('spoll', find_trait(prog, out['stream'], 'Stream', 'poll_next'), 'Stream for StreamingCompletion')):
        if b is None:
            return None, what
        out[k] = b
    return out, None


def reach(st, roots):
    """ids of the opaque values reachable from the given values"""
    seen, cells, out = set(), set(), set()
    chix = {}
    for k, v in st.child.items():
        chix.setdefault(k[0], []).append(v)
    work = list(roots)
    while work:
        v = work.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == 'y':
            if v[1] not in out:
                out.add(v[1])
                work += chix.get(v[1], ())
            continue
        if v[0] == 'loc':
            if v[1] not in cells:
                cells.add(v[1])
                work.append(st.mem.get(v[1], MOVED))
            continue
        if v[0] in ('n', 'bs', 'fn'):
            continue
        work += [x for x in v if isinstance(x, tuple)]
    return out


def sub_maps(e, st, v):
    """forget what maps say about other keys"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'c':
        if v[1] == 'map':
            return m_std.map_prune(e, st, v)
        return v
    if v[0] == 's':
        return ('s', v[1], v[2], v[3], tuple((i, sub_maps(e, st, x)) for i, x in v[4]))
    return v


class RpcModels(Models):
    """shared state behind a Mutex is tracked: between two critical sections only the environment's own
    actions (which the harness enumerates) change it"""
    inbound = ('inbound',)
    own_atomics = True

    def lock_contents(self, c, r, v, ty):
        st, e = c.st, c.e
        if v[0] != 'y':
            return super().lock_contents(c, r, v, ty)
        r = inner_of(e, st, v, ty)
        m = e.load(st, r[1])
        if m[0] == 'c' and m[1] == 'map' and m[4][0] == 'map':
            # other calls have been registered and dropped meanwhile
            n = e.fresh_int(st)
            if any(x[1] == 'has' for x in m[4][1]):
                e.assume_ge(st, L.addc(n[1], -1))
            e.store(st, r[1], m[:2] + (n,) + m[3:])
        return [(st, r)]

    def born(self, e, st, x):
        if x[0] != 'y':
            return [st]
        p = st.prov.get(x[1])
        if not (p and p[0] == 'item' and p[1] == self.inbound):
            return [st]
        idk, ck = ('message_id', x[1]), ('control_code', x[1])
        if idk in st.memo:
            return [st]
        out = []
        K = st.mon['K']
        for mine in (True, False):
            s = st.copy()
            k = e.fresh_int(s, 'u64')
            s.memo[idk] = K if mine else k
            if not mine and not e.assume_ge(s, L.addc(L.sub(k[1], K[1]), -1)):
                continue
            for i in range(len(e.variants(adt(CODE)) or [0])):
                t = s.copy()
                t.memo[ck] = ('s', adt(CODE), i, None, ())
                out.append(t)
        return out

    def simplify(self, e, st, key, widen):
        for c in list(st.mem):
            v = st.mem[c]
            if v[0] in ('s', 'c'):
                st.mem[c] = sub_maps(e, st, v)
        if key == ('entry',):
            for c in [c for c in st.mem if c[0] == 'G' and c[1] in ('ctx', 'waker')]:
                del st.mem[c]


def inner_of(e, st, y, ty):
    k = (y[1], 'inner')
    if k not in st.child:
        if ty is None and y[2][0] == 'adt' and y[2][2]:
            ty = y[2][2][0]
        d = st.prov.get(y[1]) == ('default',)
        v = m_std.default_of(e, st, ty) if d else e.fresh(st, ty) if ty else e.opaque(('?',))
        st.child[k] = ('r', ('loc', e.newcell(st, v), ()), 'mut')
    return st.child[k]


def undrained(v):
    """lengths of the inbound messages an iterator or container still holds"""
    if not isinstance(v, tuple):
        return
    if len(v) == 5 and v[0] == 'c' and isinstance(v[4], tuple) and v[4][0] == 'seq' and v[4][1] == ('inbound',):
        yield v[2]
        return
    if v and v[0] in ('r', 'sl', 'fn'):
        return
    for x in v:
        yield from undrained(x)


class RpcMon:
    def __init__(self, variants):
        self.count = {}
        self.codes = {v: i for i, v in enumerate(variants)}

    def n(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def key(self, e, st, what):
        return what

    def rep(self, e, st, p, k, msg, span=None):
        e.report(p, k, msg, st, span)

    def init(self, e, st):
        K = e.fresh_int(st, 'u64')
        st.mon.update(K=K, S=NONE, tok=NONE, call=NONE, owe=NONE, ph=NONE, req=NONE, reg=NONE, alive=('k', 'yes'), held=('k', 'no'))

    # ---- tokens
    def tok(self, st):
        t = st.mon['tok']
        return t[1] if t[0] == 'y' else None

    def is_tok(self, st, v):
        return v[0] == 'y' and v[1] == self.tok(st)

    def msg_k(self, e, st, y):
        """True/False/None: is this inbound message for K?"""
        i = st.memo.get(('message_id', y[1])) if y[0] == 'y' else None
        if i is None or i[0] != 'n':
            return None
        return e.entails_eq(st, L.sub(i[1], st.mon['K'][1]))

    def inbound(self, st, v):
        if v[0] != 'y':
            return False
        p = st.prov.get(v[1])
        return bool(p and p[0] == 'item' and p[1] == ('inbound',))

    # ---- events
    def on_channel(self, e, st, kind, tx, rx, cap, span):
        if st.mon['ph'][1] == 'send' and kind in ('oneshot', 'unbounded'):
            self.n('channel')
            st.mon['tok'] = tx
            st.mon['rx'] = rx
            st.mon['kind'] = ('k', kind)

    def on_iter_item(self, e, st, it, v):
        if st.mon['ph'][1] != 'react' or not self.inbound(st, v):
            return
        self.settle(e, st)
        self.n('inbound')
        mk = self.msg_k(e, st, v)
        code = st.memo[('control_code', v[1])][2]
        if mk:
            if code == self.codes['Normal']:
                st.mon['owe'] = ('deliver', v) if st.mon['S'][1] == 'tok' else ('stray', v)
            else:
                st.mon['owe'] = ('close',) if st.mon['S'][1] == 'tok' else NONE
        else:
            st.mon['owe'] = ('other', v) if code == self.codes['Normal'] else NONE

    def settle(self, e, st):
        o = st.mon['owe']
        if o[0] == 'deliver':
            self.rep(e, st, 'C09', 'response not delivered', "a response for a registered call is not handed to that call before the next message is handled")
        elif o[0] == 'close':
            self.rep(e, st, 'C09', 'end not delivered', "a Cancel or End for a registered call does not close that call's completion")
        st.mon['owe'] = NONE

    def on_send(self, e, st, obj, msg, how, res, ref, span):
        ph = st.mon['ph'][1]
        if how == 'send' or how == 'try_send':
            return self.outbound(e, st, msg, how, res, span)
        if ph == 'send':
            self.rep(e, st, 'C10', 'sends a response', "sending a request completes a call", span)
            return
        self.n('deliver-' + how)
        o = st.mon['owe']
        m = msg
        wrapped = False
        if msg[0] == 's' and msg[1][0] == 'adt' and msg[1][1] == M.RESULT:
            wrapped = msg[2] == 0
            m = dict(msg[4]).get(0, U) if wrapped else ('err',)
        mine = self.is_tok(st, obj)
        if not mine:
            if self.inbound(st, m) and self.msg_k(e, st, m):
                self.rep(e, st, 'C09', 'wrong call', "a response is delivered to a call with another id", span)
            return
        if not self.inbound(st, m):
            self.rep(e, st, 'C09', 'invented response', "a call is completed with something that is not a message from the network", span)
        elif self.msg_k(e, st, m) is not True:
            self.rep(e, st, 'C09', 'wrong response', "a call receives a response with another id", span)
        elif o[0] == 'deliver' and o[1] == m:
            self.n('delivered')
        elif o[0] == 'deliver':
            self.rep(e, st, 'C09', 'response order', "a call receives a message other than the one being handled", span)
        elif st.mon['S'][1] == 'tok':
            self.rep(e, st, 'C09', 'control or duplicate delivered', "a call receives a control message, or a message twice", span)
        st.mon['owe'] = NONE
        if how == 'oneshot':
            st.mon['S'] = NONE
            st.mon['tok'] = NONE
        elif res == 'err' and st.mon['S'][1] == 'tok':
            # the caller is gone
            st.mon['S'] = ('k', 'dead')

    def outbound(self, e, st, msg, how, res, span):
        ph = st.mon['ph'][1]
        p = st.prov.get(msg[1]) if msg[0] == 'y' else None
        if ph == 'send' and how == 'send':
            self.n('request')
            if msg != st.mon['req']:
                self.rep(e, st, 'C10', 'not the request', "something other than the caller's request is sent", span)
                return
            if st.mon['sent'][1] != 'no':
                self.rep(e, st, 'C10', 'sent twice', "a request is sent more than once", span)
            st.mon['sent'] = ('k', res)
            if st.mon['alive'][1] == 'yes' and (self.tok(st) is None or self.tok(st) not in reach(st, [e.load(st, SELF)])):
                self.rep(e, st, 'C10', 'sent before registered', "the request is sent before its completion is registered with the reactor, so a fast response can be missed", span)
            return
        if p and p[0] == 'cancelled':
            self.n('cancel')
            if not (p[1][0] == 'n' and e.entails_eq(st, L.sub(p[1][1], st.mon['K'][1]))):
                self.rep(e, st, 'C11', 'cancels another id', "dropping a call cancels an RPC with another id", span)
            if ph == 'react':
                self.rep(e, st, 'C11', 'cancel while receiving', "a cancellation is sent while handling responses", span)
            st.mon['cancels'] = ('k', {'no': 'one', 'one': 'many', 'many': 'many'}[st.mon['cancels'][1]])
            return
        if ph == 'send' and msg == st.mon['req']:
            self.rep(e, st, 'C10', 'request may be dropped', "the request is submitted in a way that drops it when the queue is full", span)
            return
        self.rep(e, st, 'C10', 'unexpected outbound', "the client sends a message the caller did not ask for", span)

    # ---- the lock
    def on_lock(self, e, st, ref, inner, span=None):
        self.n('lock')
        e.stats["obl"].add(('lock', st.mon['ph'][1], span))
        if st.mon['held'][1] == 'yes':
            self.rep(e, st, 'C23', 'locked twice', "the registry is locked while this thread holds its lock already: it waits for itself, and every call and the connection with it", span)
        st.mon['held'] = ('k', 'yes')

    def on_suspend(self, e, st, span):
        self.n('suspend')
        e.stats["obl"].add(('suspend', st.mon['ph'][1], span))
        if st.mon['held'][1] == 'yes':
            self.rep(e, st, 'C23', 'held while waiting', "a call waits while it holds the lock of the registry: the connection and every other call block on it", span)

    def free(self, e, st, span):
        if st.mon['held'][1] == 'yes':
            self.rep(e, st, 'C23', 'held after return', "an operation returns and leaves the registry locked", span)
            st.mon['held'] = ('k', 'no')

    def on_drop(self, e, st, v, span):
        if v[0] == 'guard':
            self.n('unlock')
            st.mon['held'] = ('k', 'no')
            return
        if st.mon['ph'][1] == 'react' and v[0] in ('it', 'c'):
            for n in undrained(v):
                if not e.entails_eq(st, n[1]):
                    self.rep(e, st, 'C09', 'responses discarded', "messages of a received batch are thrown away without being looked at", span)
        if self.is_tok(st, v):
            s = st.mon['S'][1]
            o = st.mon['owe']
            ph = st.mon['ph'][1]
            if o[0] == 'close':
                st.mon['owe'] = NONE
                self.n('closed')
            elif s == 'tok' and ph == 'react':
                self.rep(e, st, 'C09', 'completion dropped', "a registered call loses its completion although the server did not end it", span)
            elif s == 'tok' and ph == 'dropreactor':
                self.n('failed-at-loss')
            st.mon['S'] = NONE
            st.mon['tok'] = NONE

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        p = {'react': 'C09', 'send': 'C10', 'dropcall': 'C11', 'dropreactor': 'C12'}.get(st.mon['ph'][1], 'C09')
        self.rep(e, st, p, 'panic ' + st.mon['ph'][1], f"the client may panic ({kind}) while in {st.mon['ph'][1]}", span)

    def on_ext(self, e, st, name, fid, args, span):
        pass


def harness(prog, max_steps=400000):
    A, miss = anchors(prog)
    if A is None:
        return None, None, miss
    codes = [v[0] for v in prog.adts[CODE]["v"]]
    mon = RpcMon(codes)
    models = RpcModels()
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    mon.init(e, st)
    # the reactor, with the handler type the client uses
    rty = A['cnew'].locals[2]
    hty = rty[2][2][-1] if rty[0] == 'ref' and rty[2][0] == 'adt' and rty[2][2] else ('?',)
    st.mon['ph'] = ('k', 'new')
    e.push(st, A['rnew'], [e.fresh(st, hty)], None, {})
    work = []
    for s, v in e.run(st):
        s.mem[SELF[1]] = v
        q = e.opaque(A['cnew'].locals[1])
        qr = e.opaque(('?',))
        s.prov[q[1]] = ('tx', qr)
        s.mon['Q'] = qr
        e.push(s, A['cnew'], [q, ('r', SELF, 'ref')], None, {})
        work.append(s)
    ents = []
    for s, v in e.run(work):
        s.mem[CLI[1]] = v
        ents.append(s)
    return e, mon, (A, ents)


def run(prog, max_steps=400000):
    e, mon, x = harness(prog, max_steps)
    if e is None:
        return None, None, x
    A, ents = x
    rounds = 0
    while ents:
        got = {}
        for s in ents:
            mon.free(e, s, A['react'].sp)
            s.mon.update(ph=('k', 'entry'), owe=NONE, req=NONE, sent=('k', 'no'), cancels=('k', 'no'), fresh=NONE)
            s.flags = s.flags & {UNKNOWN}
            r = e.merge(s, ('entry',), True)
            if r is not None:
                got[r[:2]] = r[2]
        ents = []
        for s in got.values():
            rounds += 1
            s.fr = ()
            ents += react(e, mon, A, s.copy())
            if s.mon['call'][1] == 'none':
                for kind in ('send_unary', 'send_streaming'):
                    ents += send(e, mon, A, s.copy(), kind)
            else:
                ents += dropcall(e, mon, A, s.copy())
            if (s.mon['Q'][1], 'gone') not in s.child and all(v == ('b', False) for v in alive(e, mon, A, s.copy())):
                mon.rep(e, s, 'C12', 'not alive', "a client with a working connection reports that it is not alive", A['is_alive'].sp)
            dropreactor(e, mon, A, s.copy())
    return e, mon, rounds


def react(e, mon, A, st):
    st.mon['ph'] = ('k', 'react')
    n = e.fresh_int(st)
    dead = st.mon['S'][1] == 'dead'
    it = ('it', 'own', ('c', 'vec', n, None, ('seq', ('inbound',), ('n', L.ZERO), '+', None)), 'into')
    e.push(st, A['react'], [('r', SELF, 'mut'), it], None, {})
    out = []
    for s, v in e.run(st):
        mon.settle(e, s)
        mon.n('react-exit')
        e.stats["obl"].add(('react', s.mon['S'][1], s.mon['call'][1]))
        if v[0] == 's' and v[2] != 0 or v[0] != 's':
            mon.rep(e, s, 'C09', 'reactor disconnects', "responses make the reactor end the connection", A['react'].sp)
        if s.mon['S'][1] == 'dead' and mon.tok(s) in reach(s, [e.load(s, SELF)]):
            mon.rep(e, s, 'C11', 'dropped call is kept', "a dropped call's completion stays registered after the reactor has handled messages", A['react'].sp)
        out.append(s)
    return out


def send(e, mon, A, st, kind, keep=False):
    st.mon['ph'] = ('k', 'send')
    b = A[kind]
    req = e.fresh(st, b.locals[2])
    st.mon['req'] = req
    st.memo[('message_id', req[1])] = st.mon['K']
    was = st.mon['tok']
    e.push(st, b, [('r', CLI, 'ref'), req], None, {})
    out = []
    cos = []
    for s, v in e.run(st):
        if v[0] == 's' and v[1][0] == 'coroutine' and v[1][1] in e.prog.bodies:
            e.push(s, e.prog.bodies[v[1][1]], [v, M.ctx_ref(e, s)], None, dict(v[1][2]), co='co')
            cos.append(s)
        else:
            e.undecide('C10', kind, 'the call is not an async function', s)
    for s, v in e.run(cos):
        mon.n(kind)
        okv = v[0] == 's' and v[1][1] == M.POLL and v[2] == 0
        res = dict(v[4])[0] if okv else None
        sent = s.mon['sent'][1]
        e.stats["obl"].add((kind, sent, 'cancelled' if not okv else res[2] if res[0] == 's' else '?'))
        live = False
        if 'cancelled' in s.flags or not okv:
            pass
        elif res[0] == 's' and res[2] == 0:
            live = True
            if sent != 'ok':
                mon.rep(e, s, 'C10', 'accepted but not sent', "a call is returned although its request was not queued for sending", b.sp)
            c = dict(res[4])[0]
            s.mem[CALL[1]] = c
            if s.mon.get('rx', NONE)[0] != 'y' or s.mon['rx'][1] not in reach(s, [c]):
                mon.rep(e, s, 'C10', 'wrong completion', "the returned call does not hold the receiver of the registered completion", b.sp)
            if s.mon['cancels'][1] != 'no':
                mon.rep(e, s, 'C11', 'cancelled at birth', "a call that was accepted is cancelled at once", b.sp)
        else:
            if sent == 'ok':
                mon.rep(e, s, 'C10', 'sent but failed', "an error is returned although the request was queued for sending", b.sp)
            ev = dict(res[4]).get(0, U) if res[0] == 's' else U
            vs = e.variants(adt(ERROR)) or []
            var = ev[2] if ev[0] == 's' else None
            if var is None or vs[var][0] != 'ConnectionIsClosed':
                mon.rep(e, s, 'C10', 'wrong error', "a call that cannot be sent fails with something other than ConnectionIsClosed", b.sp)
            if sent == 'no' and s.mon['alive'][1] == 'yes' and (s.mon['Q'][1], 'gone') not in s.child:
                mon.rep(e, s, 'C10', 'refused while alive', "a call is refused although the connection is alive", b.sp)
        if live:
            s.mon['S'] = ('k', 'tok') if mon.tok(s) is not None else NONE
            s.mon['call'] = s.mon['kind']
        else:
            # the caller has nothing: the completion must be gone or marked for removal
            s.mon['S'] = ('k', 'dead') if mon.tok(s) is not None else NONE
            s.mem.pop(CALL[1], None)
        for k in () if keep else ('rx', 'kind'):
            s.mon.pop(k, None)
        out.append(s)
    return out


def dropcall(e, mon, A, st):
    st.mon['ph'] = ('k', 'dropcall')
    c = e.load(st, CALL)
    st.mem.pop(CALL[1], None)
    if st.mon['S'][1] == 'tok':
        st.mon['S'] = ('k', 'dead')
    st.fr = ()
    out = []
    for s, v in e.run(e.models.start_drop(e, st, c, None)):
        mon.n('dropcall')
        e.stats["obl"].add(('dropcall', s.mon['cancels'][1]))
        if s.mon['cancels'][1] != 'one':
            mon.rep(e, s, 'C11', 'cancel ' + s.mon['cancels'][1], "dropping an unresolved call does not send exactly one cancellation", A['send_unary'].sp)
        s.mon['call'] = NONE
        out.append(s)
    return out


def dropreactor(e, mon, A, st):
    st.mon['ph'] = ('k', 'dropreactor')
    c = e.load(st, SELF)
    st.mem.pop(SELF[1], None)
    st.fr = ()
    for s, v in e.run(e.models.start_drop(e, st, c, None)):
        mon.n('dropreactor')
        e.stats["obl"].add(('dropreactor', s.mon['S'][1]))
        # its connection, which owns the reactor, closes the queue first (checked by drop_order)
        s.child[(s.mon['Q'][1], 'gone')] = ('k', 'gone')
        s.mon['alive'] = ('k', 'no')
        s.mem[SELF[1]] = U
        for v in alive(e, mon, A, s.copy()):
            if v == ('b', False):
                mon.n('dead')
            else:
                mon.rep(e, s, 'C12', 'still alive', "the client reports that it is alive although its connection is gone", A['is_alive'].sp)
        if s.mon['S'][1] == 'tok':
            mon.rep(e, s, 'C12', 'call left hanging', "when the connection goes away an outstanding call keeps its sender: it never completes", A['rnew'].sp)
        afterloss(e, mon, A, s)


def alive(e, mon, A, st):
    """what RpcClient::is_alive may say"""
    st.mon['ph'] = ('k', 'is_alive')
    st.fr = ()
    e.push(st, A['is_alive'], [('r', CLI, 'ref')], None, {})
    return [v for _, v in e.run(st)]


def afterloss(e, mon, A, st):
    """a call made after the connection is known to be gone fails at once"""
    for kind in ('send_unary', 'send_streaming'):
        s = st.copy()
        s.mem[SELF[1]] = U
        s.mon['call'] = NONE
        s.mon['tok'] = NONE
        for x in send(e, mon, A, s, kind):
            mon.n('afterloss')
            if x.mon['S'][1] == 'tok':
                mon.rep(e, x, 'C12', 'call on a dead connection', "a call made after the connection is gone is accepted", A[kind].sp)


# ---------------------------------------------------------------- what the caller sees
class CallMon(RpcMon):
    def on_oneshot(self, e, st, obj, res, v, span):
        self.n('oneshot-' + res)
        st.mon['os'] = ('got', v) if res == 'ok' else ('k', res)

    def on_recv(self, e, st, obj, res, n, span):
        self.n('recv-' + res)
        if st.mon.get('rx', NONE)[0] == 'y' and obj[1] != st.mon['rx'][1]:
            return
        st.mon['os'] = ('k', res)
        if res == 'closed':
            st.child[(obj[1], 'closed')] = ('k', 'closed')

    def on_disorder(self, e, st, c, v, why, span=None):
        self.rep(e, st, 'C13', 'stream order', "streamed responses are reordered: " + why, span)

    def on_clear(self, e, st, loc, old, span=None):
        if old[4][0] == 'seq' and not e.entails_eq(st, clen(old)):
            self.rep(e, st, 'C13', 'responses discarded', "received responses are discarded", span)

    def on_drop(self, e, st, v, span):
        if v[0] == 'y' and st.mon['ph'][1] == 'poll':
            p = st.prov.get(v[1])
            if p and p[0] == 'item' and p[1][0] == 'chan':
                self.rep(e, st, 'C13', 'response dropped', "a received response is dropped", span)

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        self.rep(e, st, 'C13', 'panic', f"polling a call may panic ({kind})", span)


def ready_of(v):
    """('pending',) | ('ready', value)"""
    if v[0] == 's' and v[2] == 1:
        return None
    if v[0] == 's' and v[2] == 0:
        return dict(v[4]).get(0, U)
    return ('?',)


def err_name(e, v):
    """name of the protosocket error in an Err(..) value"""
    if v[0] == 's' and v[1][0] == 'adt' and v[1][1] == M.RESULT and v[2] == 1:
        x = dict(v[4]).get(0, U)
        vs = e.variants(adt(ERROR)) or []
        if x[0] == 's' and vs:
            return vs[x[2]][0]
    return None


def calls(prog, max_steps=400000):
    """poll and drop a call in every state it can be in"""
    e, mon, x = harness(prog, max_steps)
    if e is None:
        return None, None, x
    A, ents = x
    cm = CallMon(list(mon.codes))
    start = {'send_unary': [], 'send_streaming': []}
    for s in ents:
        for k in start:
            t = s.copy()
            t.mon.update(sent=('k', 'no'), cancels=('k', 'no'), fresh=NONE)
            t.flags = t.flags & {UNKNOWN}
            for y in send(e, mon, A, t, k, keep=True):
                if y.mon['call'][1] != 'none':
                    start[k].append(y)
    e.violations.clear()
    e.monitors[:] = [cm]
    rounds = 0
    for kind, poll in (('send_unary', A['upoll']), ('send_streaming', A['spoll'])):
        work = start[kind]
        for s in work:
            s.mon['out'] = ('n', L.ZERO)
            s.mon['fin'] = ('k', 'no')
        while work:
            got = {}
            for s in work:
                s.mon.update(os=('k', 'unasked'), ph=('k', 'entry'), cancels=('k', 'no'))
                r = e.merge(s, (kind,), True)
                if r is not None:
                    got[r[:2]] = r[2]
            work = []
            for s in got.values():
                rounds += 1
                s.fr = ()
                drop_after_poll(e, cm, A, s.copy(), kind)
                if kind == 'send_unary' and s.mon['fin'][1] == 'yes':
                    continue
                t = s
                t.mon['ph'] = ('k', 'poll')
                e.push(t, poll, [('r', CALL, 'mut'), M.ctx_ref(e, t)], None, {})
                for u, v in e.run(t):
                    e.stats["obl"].add((kind, 'poll', str(u.mon['os'][0]), str(u.mon['os'][1])[:12]))
                    (unary_exit if kind == 'send_unary' else stream_exit)(e, cm, u, v, poll.sp)
                    work.append(u)
    return e, cm, rounds


def drop_after_poll(e, mon, A, st, kind):
    st.mon['ph'] = ('k', 'dropcall')
    c = e.load(st, CALL)
    st.mem.pop(CALL[1], None)
    want = 'no' if st.mon['fin'][1] == 'yes' else 'one'
    for s, v in e.run(e.models.start_drop(e, st, c, None)):
        mon.n('drop-' + want)
        e.stats["obl"].add((kind, 'drop', want))
        if s.mon['cancels'][1] != want:
            if want == 'no':
                mon.rep(e, s, 'C11', kind + ': cancels a finished call', "dropping a call that has already completed sends a cancellation", A['upoll'].sp)
            else:
                mon.rep(e, s, 'C11', kind + ': cancel ' + s.mon['cancels'][1], "dropping a call that has not completed does not send exactly one cancellation", A['upoll'].sp)


def unary_exit(e, mon, st, v, sp):
    o = st.mon['os']
    x = ready_of(v)
    rep = lambda k, m: mon.rep(e, st, 'C13', 'unary: ' + k, m, sp)
    mon.n('unary-' + ('pending' if x is None else 'ready'))
    if x is None:
        if o != ('k', 'pending'):
            rep('sleeps', "a unary call returns Pending without waiting for its response")
        return
    if o[0] == 'got':
        if x != o[1]:
            rep('response', "a unary call does not resolve with the response it was given")
    elif o == ('k', 'err'):
        if err_name(e, x) != 'CancelledRemotely':
            rep('closed', "a unary call whose completion was closed does not fail with CancelledRemotely")
    else:
        rep('early', "a unary call resolves although no response has arrived")
    st.mon['fin'] = ('k', 'yes')


def stream_exit(e, mon, st, v, sp):
    o = st.mon['os']
    x = ready_of(v)
    rep = lambda k, m: mon.rep(e, st, 'C13', 'stream: ' + k, m, sp)
    fin = st.mon['fin'][1] == 'yes'
    out = st.mon['out'][1]
    rx = st.mon['rx']
    cnt = st.child.get((rx[1], 'cnt'), ('n', L.ZERO))[1]
    mon.n('stream-' + ('pending' if x is None else 'ready'))
    if x is None:
        if fin:
            rep('wakes after end', "a finished stream returns Pending")
        elif o != ('k', 'pending') or not e.entails_eq(st, L.sub(out, cnt)):
            rep('sleeps', "a stream returns Pending while it has responses, or without waiting for more")
        return
    if x[0] != 's':
        return rep('value', "a stream yields a value that cannot be traced")
    if x[2] == 0:        # None
        if not fin:
            rep('ends without Finished', "a stream ends before it has reported Finished")
        return
    y = dict(x[4]).get(0, U)
    if fin:
        return rep('more after Finished', "a stream yields something after it has reported Finished")
    if err_name(e, y) is not None or (y[0] == 's' and y[2] == 1):
        if err_name(e, y) != 'Finished':
            rep('error', "a stream reports an error other than Finished at its end")
        if (rx[1], 'closed') not in st.child:
            rep('early end', "a stream reports Finished although its completion is still open")
        if not e.entails_eq(st, L.sub(out, cnt)):
            rep('lost at end', "a stream reports Finished before it has yielded every response")
        st.mon['fin'] = ('k', 'yes')
        return
    z = dict(y[4]).get(0, U) if y[0] == 's' else U
    p = st.prov.get(z[1]) if z[0] == 'y' else None
    if not (p and p[0] == 'item' and p[1][0] == 'chan' and p[1][1][1] == rx[1]):
        return rep('value', "a stream yields something that was not received for it")
    if not e.entails_eq(st, L.sub(p[2][1], out)):
        rep('order', "a stream does not yield its responses in the order they were received, each once")
    st.mon['out'] = ('n', e.N(st, L.addc(p[2][1], 1)))


# ---------------------------------------------------------------- the moment the connection goes away
class DropMon:
    """order in which a dropped connection lets go of its queue and its reactor"""

    def __init__(self):
        self.count = {}

    def on_drop(self, e, st, v, span):
        if v[0] != 'y':
            return
        if v == st.mon['queue']:
            st.mon['gone'] = ('k', 'queue' if st.mon['gone'][1] == 'none' else st.mon['gone'][1])
            self.count['drop-queue'] = 1
        elif v == st.mon['reactor']:
            self.count['drop-reactor'] = 1
            if st.mon['gone'][1] == 'none':
                st.mon['gone'] = ('k', 'reactor')


def drop_order(prog, max_steps=100000):
    """a call registered while the reactor is being dropped must see its request refused, so the queue
    has to be closed before the reactor releases the registered calls"""
    import conn
    if not conn.anchors(prog):
        return None, None, 'Connection'
    e, _, poll, work, lim = conn.analyse(prog, ['C12'], max_steps)
    mon = DropMon()
    e.violations.clear()
    e.monitors[:] = [mon]
    new = conn.find_ctor(prog, conn.CONN)
    for s in work:
        c = e.load(s, conn.SELF)
        ys = [v for v in flat(c) if v[0] == 'y']
        q = [v for v in ys if s.prov.get(v[1]) == ('rx', 'mpsc')]
        r = [v for v in ys if v[2][0] in ('alias', 'param') and 'Reactor' in str(v[2])]
        if not q or not r:
            e.undecide('C12', 'drop order', 'the queue or the reactor is not held by the connection itself', s)
            continue
        s.mon = dict(s.mon, queue=q[0], reactor=r[0], gone=NONE)
        s.mem.pop(conn.SELF[1], None)
        s.fr = ()
        for t, v in e.run(e.models.start_drop(e, s, c, None)):
            e.stats["obl"].add(('drop order', t.mon['gone'][1]))
            if t.mon['gone'][1] != 'queue':
                e.report('C12', 'drop order', "a dropped connection releases the registered calls before its outbound queue refuses new requests: a call made in between is accepted and never completes", t, new.sp)
    return e, mon, len(work)


def flat(v):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 's':
        for _, x in v[4]:
            yield from flat(x)
    else:
        yield v
