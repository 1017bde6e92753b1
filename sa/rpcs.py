"""The RPC server of one connection: any history of inbound messages, futures and streams making progress,
outbound capacity and closing (C14-C18).

Followed through the real code, in slots (st.mon / cells ('G', slot)):
  cur   the latest RPC with the tracked id K          (obligations apply)
  old   an earlier RPC with id K that was cancelled or has finished but is still held  (nothing may come of it)
  oth   an RPC with another id J                       (no obligations; its progress must not disturb K)
At most one of old, oth is followed at a time.  The collections (FuturesUnordered, SelectAll) are modelled: polling
one either polls a followed member through its own code, or reports that nothing is ready.
"""
import lin as L
import models as M
from eng import Engine, St, SFrame, U, MOVED, UNKNOWN
from ir import subst
from models import adt, strip_refs, clen, spush, sset, sframe, trait_eq
from m_io import ready, pending, some, none, targ
from conn import find_ctor, find_inherent, find_trait
from rpcc import RpcModels, adt_id, reach, ready_of, err_name, CODE, NONE
from m_std import focus

SELF = ('loc', ('G', 'self'), ())
SLOTS = ('cur', 'old', 'oth')
FU, SA = 'FuturesUnordered', 'SelectAll'


def cell(x):
    return ('loc', ('G', x), ())


def coll_kind(v):
    if v[0] == 'y' and v[2][0] == 'adt':
        n = v[2][1].split('::')[-1]
        if n in (FU, SA):
            return n
    return None


class SrvModels(RpcModels):
    own_atomics = True

    def __init__(self, mon):
        super().__init__()
        self.m = mon
        self.ext_hooks = [self.ext]

    # ---- inbound messages
    def born(self, e, st, x):
        if x[0] != 'y':
            return [st]
        p = st.prov.get(x[1])
        if not (p and p[0] == 'item' and p[1][0] == 'chan' and p[1][1] == st.mon['rx']):
            return [st]
        idk, ck = ('message_id', x[1]), ('control_code', x[1])
        if idk in st.memo:
            return [st]
        K, out = st.mon['K'], []
        codes = self.m.codes
        for who in ('K', 'J', '?'):
            for nm, i in codes.items():
                s = st.copy()
                if who == 'K':
                    if nm == 'Normal' and s.mon['cs'][1] == 'alive':
                        continue          # a client does not reuse the id of a call it still holds
                    s.memo[idk] = K
                elif who == 'J':
                    if s.mon['J'][0] != 'n' or nm == 'Normal':
                        continue
                    s.memo[idk] = s.mon['J']
                else:
                    k = e.fresh_int(s, 'u64')
                    s.memo[idk] = k
                    if not e.assume_ge(s, L.addc(L.sub(k[1], K[1]), -1)):
                        continue
                    if s.mon['J'][0] == 'n' and not e.assume_ge(s, L.addc(L.sub(k[1], s.mon['J'][1]), -1)):
                        continue
                s.memo[ck] = ('s', adt(CODE), i, None, ())
                out.append(s)
        return out

    def simplify(self, e, st, key, widen):
        super().simplify(e, st, key, widen)
        m = st.mon
        if m['cs'][1] in ('done', 'cancelled') and m['curw'] == NONE and m['owe'] == NONE and (m['arcs'] == NONE or m['old'][0] == 'y' or m['oth'][0] == 'y'):
            self.m.free(st, 'cur')
            m['arcs'] = NONE
        if m['woke'][1] == 'yes':
            # it will be polled again: what it is registered with does not matter
            if m['recv'][1] == 'pending':
                m['recv'] = ('k', 'no')
            m['cap'] = ('k', 'no')
        for s in SLOTS:
            if m[s + 'k'][1] == 'yes':
                m[s + 'r'] = ('k', 'no')      # it will be polled again: what else it waits for does not matter
        if m['woke'][1] == 'yes' or m['cap'][1] == 'waiting':
            m['stale' + FU] = m['stale' + SA] = ('k', 'no')

    # ---- the user's service
    def ext(self, c):
        if not c.name.endswith('ConnectionService::new_rpc'):
            return None
        e, st = c.e, c.st
        msg = c.a[1]
        e.emit(st, 'newrpc', msg=msg, span=c.sp)
        vs = e.variants(c.ty) or []
        outs = []
        for i, v in enumerate(vs):
            s = st.copy()
            if not v[2]:
                outs.append((s, ('s', c.ty, i, None, ())))
                s.log(f"{c.sp} new_rpc -> {v[0]}")
                continue
            t = subst(v[2][0][1], dict(zip(e.prog.adts[c.ty[1]]["g"], c.ty[2])))
            f = e.opaque(t)
            s.prov[f[1]] = ('rpc', v[0])
            s.log(f"{c.sp} new_rpc -> {v[0]}")
            for s2 in self.m.adopt(e, s, msg, f, v[0]):
                outs.append((s2, ('s', c.ty, i, None, ((0, f),))))
        return c.many(outs)

    # ---- collections
    def coll_hook(self, c, op, r, v):
        e, st = c.e, c.st
        k = coll_kind(v)
        if k is None:
            return NotImplemented
        if op == 'push':
            self.m.pushed(e, st, k, c.a[1], c.sp)
            return c.fin(U)
        if op == 'clear':
            self.m.cleared(e, st, k, c.sp)
            return c.fin(U)
        held = any(st.mon[s + 'w'][1] == k for s in SLOTS)
        outs = []
        if not held:
            s = st.copy()
            s.mon['stale' + k] = ('k', 'no')
            outs.append((s, ('b', True) if op == 'is_empty' else ('n', L.ZERO)))
        if op == 'is_empty':
            outs.append((st, ('b', False)))
        else:
            n = e.fresh_int(st)
            e.assume_ge(st, L.addc(n[1], -1))
            outs.append((st, n))
        return c.many(outs)

    def poll_hook(self, c, r, v):
        k = coll_kind(v)
        if k is None:
            return NotImplemented
        e, st = c.e, c.st
        if c.name.split('::')[-1] not in ('poll_next', 'poll_next_unpin'):
            return NotImplemented
        self.m.n('poll-' + k)
        it = targ(c.ty, 0)
        outs = []
        res = []
        held = [s for s in SLOTS if st.mon[s + 'w'][1] == k]
        for s in held:
            if st.mon[s + 'k'][1] == 'yes' or st.mon[s + 'r'][1] == 'yes':
                t = st.copy()
                t.log(f"{c.sp} {k} polls {s}")
                t.mon['polling'] = ('k', s)
                t.mon[s + 'k'] = ('k', 'no')
                t.mon[s + 'r'] = ('k', 'no')
                spush(t, 'coll', 1, (('k', k), ('k', s), ('ty', c.ty), ('k', 0)), c.dest, c.sp)
                res += self.poll_member(e, t, s, k, c.a[1], c.sp)
        # nothing (more) is ready; a member that was woken is polled first
        if not any(st.mon[s + 'k'][1] == 'yes' for s in held):
            s = st.copy()
            s.mon['stale' + k] = ('k', 'no')
            s.log(f"{c.sp} {k} -> Pending")
            outs.append((s, pending(c.ty)))
        if not held:
            s = st.copy()
            s.mon['stale' + k] = ('k', 'no')
            s.log(f"{c.sp} {k} -> None")
            outs.append((s, ready(none(it), c.ty)))
        return res + c.many(outs)

    def poll_member(self, e, st, slot, k, ctx, sp):
        v = e.load(st, cell(slot))
        tr, fn = ('Future', 'poll') if k == FU else ('Stream', 'poll_next')
        ref = ('r', cell(slot), 'mut')
        if v[0] == 's' and v[1][0] == 'coroutine' or v[0] == 'y':
            # a bare future of the service
            name = 'std::future::Future::poll' if k == FU else 'futures::Stream::poll_next'
            f = ('fn', name, name, (), None, None, None)
            out = st.prov.get(v[1])
            return e.models.call(e, st, f, [ref, ctx], None, adt('core::task::poll::Poll', (adt('?'),)), sp, False) or []
        if v[0] == 's' and v[1][0] == 'adt':
            for im in e.prog.impls:
                if im["self"][0] == 'adt' and im["self"][1] == v[1][1] and trait_eq(im["tr"], tr):
                    b = e.prog.bodies.get(im["items"].get(("fn", fn)))
                    if b is not None:
                        from eng import unify
                        env = {}
                        unify(b.self, v[1], env)
                        e.push(st, b, [ref, ctx], None, env, sp)
                        return [st]
        e.undecide('C15', 'member', 'a member of a collection of RPCs cannot be followed', st)
        return []


@sframe('coll')
def s_coll(m, e, st, f, v):
    """a member was polled"""
    k, slot, ty = f.data[0][1], f.data[1][1], f.data[2][1]
    mon = m.m
    st.mon['polling'] = NONE
    it = targ(ty, 0)
    x = ready_of(v)
    outs = []
    d = len(st.fr) - 1
    if x == ('?',) and v[0] == 'y':
        e.undecide('C15', 'member', 'the result of polling a member cannot be followed', st)
        return []

    def result(s, val):
        s.fr = s.fr[:-1]
        return e.finish(s, f.dest, val)
    if x is None:
        mon.slept(e, st, slot, f.site)
        if any(st.mon[s + 'w'][1] == k and st.mon[s + 'k'][1] == 'yes' for s in SLOTS):
            # another woken member goes next; the caller polls again
            st.mon['stale' + k] = ('k', 'yes')
            return requeue(m, e, st, f, k)
        st.mon['stale' + k] = ('k', 'no')
        return result(st, pending(ty))
    if k == FU:
        mon.removed(e, st, slot, f.site)
        st.mon['stale' + k] = ('k', 'yes')
        return result(st, ready(some(x, it), ty))
    # SelectAll
    if x[0] == 's' and x[2] == 0:
        mon.removed(e, st, slot, f.site)
        if any(st.mon[s + 'w'][1] == k and st.mon[s + 'k'][1] == 'yes' for s in SLOTS):
            return requeue(m, e, st, f, k)
        s2 = st.copy()
        s2.mon['stale' + k] = ('k', 'no')
        st.mon['stale' + k] = ('k', 'no')
        out = result(s2, pending(ty))
        if not any(st.mon[s + 'w'][1] == k for s in SLOTS):
            out += result(st, ready(none(it), ty))
        return out
    if x[0] == 's':
        st.mon[slot + 'k'] = ('k', 'yes')
        st.mon['stale' + k] = ('k', 'yes')
        return result(st, ready(x, ty))
    e.undecide('C15', 'member', 'the result of polling a member cannot be followed', st)
    return []


def requeue(m, e, st, f, k):
    for s in SLOTS:
        if st.mon[s + 'w'][1] == k and st.mon[s + 'k'][1] == 'yes':
            st.mon['polling'] = ('k', s)
            st.mon[s + 'k'] = ('k', 'no')
            st.mon[s + 'r'] = ('k', 'no')
            sset(st, 1, (('k', k), ('k', s), f.data[2], ('k', 0)))
            return m.poll_member(e, st, s, k, M.ctx_ref(e, st), f.site)
    return []


class SrvMon:
    def __init__(self, codes, mode):
        self.count = {}
        self.t_prog = mode == 'spin'
        self.mode = 'oth' if self.t_prog else mode
        self.codes = {v: i for i, v in enumerate(codes)}

    def n(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def rep(self, e, st, p, k, msg, span=None):
        e.report(p, k, msg, st, span)

    def init(self, e, st):
        st.mon.update(K=e.fresh_int(st, 'u64'), J=NONE, rx=NONE, nx=('n', L.ZERO), req=NONE, owe=NONE, cs=NONE, polling=NONE, arcs=NONE, rsv=('k', 'no'))
        for s in SLOTS:
            self.free(st, s)
        self.entry(e, st)

    def free(self, st, s):
        """slot s holds nothing: future, where it is held, woken, registered with its own event, abort waker, arcs"""
        st.mon.update({s: NONE, s + 'w': NONE, s + 'k': ('k', 'no'), s + 'r': ('k', 'no'), s + 'a': NONE})
        st.mem.pop(('G', s), None)
        if s == 'cur':
            st.mon['cs'] = NONE
        if s == 'oth':
            st.mon['J'] = NONE

    def entry(self, e, st):
        st.mon.update(recv=('k', 'no'), woke=('k', 'no'), cap=('k', 'no'), out=('k', 'open'), owe=NONE, req=NONE, polling=NONE)
        st.mon['stale' + FU] = st.mon['stale' + SA] = ('k', 'yes')
        if self.t_prog:
            st.mon.update(prog=('k', 'no'), own=('k', 'no'))
            st.mon.setdefault('idle', ('k', 'no'))

    def prog(self, st):
        if self.t_prog:
            st.mon['prog'] = ('k', 'yes')

    def slot_of(self, st, y):
        for s in SLOTS:
            if st.mon[s] == y:
                return s
        return None

    # ---- messages
    def is_in(self, st, v):
        if v[0] != 'y':
            return False
        p = st.prov.get(v[1])
        return bool(p and p[0] == 'item' and p[1][0] == 'chan' and p[1][1] == st.mon['rx'])

    def taken(self, e, st, v, span):
        if not self.is_in(st, v) or ('taken', v[1]) in st.memo:
            return
        st.memo[('taken', v[1])] = ('k', 'yes')
        self.unstarted(e, st, span)
        self.n('taken')
        i = st.prov[v[1]][2]
        if not e.entails_eq(st, L.sub(i[1], st.mon['nx'][1])):
            self.rep(e, st, 'C14', 'order', "inbound messages are handled out of order, twice, or some are skipped", span)
        st.mon['nx'] = ('n', e.N(st, L.addc(i[1], 1)))
        if ('control_code', v[1]) not in st.memo:
            return
        code = st.memo[('control_code', v[1])][2]
        idv = st.memo[('message_id', v[1])]
        mine = idv[0] == 'n' and e.entails_eq(st, L.sub(idv[1], st.mon['K'][1]))
        if code == self.codes['Normal']:
            st.mon['req'] = v
            self.n('normal')
        elif code == self.codes['Cancel'] and mine:
            self.n('cancel')
            if st.mon['cs'][1] == 'alive':
                st.mon['cs'] = ('k', 'cancelled')
                self.n('cancel-alive')

    def unstarted(self, e, st, span):
        if st.mon['req'][0] == 'y':
            self.rep(e, st, 'C14', 'not started', "a request is taken from the connection but never handed to the service", span)
            st.mon['req'] = NONE

    def on_msg(self, e, st, op, obj, v, span):
        self.taken(e, st, obj, span)

    def on_newrpc(self, e, st, msg, span):
        self.taken(e, st, msg, span)
        self.n('newrpc')
        if not self.is_in(st, msg):
            self.rep(e, st, 'C14', 'invented request', "the service is handed something that is not a message from the network", span)
        elif ('control_code', msg[1]) in st.memo and st.memo[('control_code', msg[1])][2] != self.codes['Normal']:
            self.rep(e, st, 'C14', 'control message started', "a Cancel or End message is handed to the service as a request", span)
        elif st.mon['req'] != msg:
            self.rep(e, st, 'C14', 'started twice', "a request is handed to the service more than once, or late", span)
        st.mon['req'] = NONE

    def on_recv(self, e, st, obj, res, n, span):
        if obj != st.mon['rx']:
            return
        self.n('recv-' + res)
        if res == 'closed':
            st.mon['recv'] = ('k', 'closed')
        elif res == 'pending':
            st.mon['recv'] = ('k', 'pending')
        elif res == 'items' or res == 'limit0':
            st.mon['recv'] = ('k', 'no')
            if res == 'items':
                self.prog(st)

    def on_disorder(self, e, st, c, v, why, span=None):
        self.rep(e, st, 'C14', 'disorder', "inbound messages are reordered: " + why, span)

    def on_clear(self, e, st, loc, old, span=None):
        if old[4][0] == 'seq' and not e.entails_eq(st, clen(old)):
            self.rep(e, st, 'C14', 'discarded', "inbound messages are discarded unread", span)

    def on_drop(self, e, st, v, span):
        if self.is_in(st, v) and ('taken', v[1]) not in st.memo:
            self.rep(e, st, 'C14', 'dropped', "an inbound message is dropped without being looked at", span)
        s = self.slot_of(st, v) if v[0] == 'y' else None
        if s == 'cur' and st.mon['cs'][1] == 'alive' and st.mon['polling'][0] != 'dropping':
            self.rep(e, st, 'C15', 'rpc dropped', "an RPC that was neither cancelled nor finished is dropped", span)

    # ---- RPCs
    def adopt(self, e, st, msg, f, kind):
        """states in which the new RPC is followed in a slot"""
        idv = st.memo.get(('message_id', msg[1])) if msg[0] == 'y' else None
        if idv is None or idv[0] != 'n':
            return [st]
        if e.entails_eq(st, L.sub(idv[1], st.mon['K'][1])):
            out = [st]
            if st.mon['cs'][1] in ('cancelled', 'done') and st.mon['curw'][1] != 'none':
                # the earlier one is still held: follow it as `old`, or not at all
                if st.mon['old'][0] == 'y':
                    self.free(st, 'old')
                if self.mode == 'old':
                    for x in ('', 'w', 'k', 'r', 'a'):
                        st.mon['old' + x] = st.mon['cur' + x]
                    st.mem[('G', 'old')] = st.mem.get(('G', 'cur'), MOVED)
            self.free(st, 'cur')
            st.mon.update(cur=f, cs=('k', 'alive'), curw=('k', 'loose'), arcs=NONE)
            self.n('adopt-' + kind)
            return out
        out = [st]
        if self.mode == 'oth' and st.mon['oth'][0] != 'y':
            s = st.copy()
            s.mon.update(oth=f, J=idv, othw=('k', 'loose'))
            out.append(s)
        return out

    def pushed(self, e, st, k, v, span):
        st.mon['stale' + k] = ('k', 'yes')
        ys = reach(st, [v])
        for s in SLOTS:
            if st.mon[s][0] == 'y' and st.mon[s][1] in ys:
                if st.mon[s + 'w'][1] in (FU, SA):
                    self.rep(e, st, 'C15', 'held twice', "an RPC is held twice", span)
                want = FU if st.prov[st.mon[s][1]][1] == 'Unary' else SA
                st.mon[s + 'w'] = ('k', k)
                st.mon[s + 'k'] = ('k', 'yes')
                st.mem[('G', s)] = v
                self.n('push-' + k)

    def cleared(self, e, st, k, span):
        for s in SLOTS:
            if st.mon[s + 'w'][1] == k:
                if s == 'cur' and st.mon['cs'][1] == 'alive':
                    self.rep(e, st, 'C15', 'rpc dropped', "an RPC that was neither cancelled nor finished is dropped", span)
                self.free(st, s)

    def removed(self, e, st, s, span):
        """the collection let go of the member in slot s"""
        self.prog(st)
        if s == 'cur':
            if st.mon['cs'][1] == 'alive':
                self.rep(e, st, 'C15', 'rpc dropped', "an RPC that was neither cancelled nor finished is given up", span)
            self.n('removed-' + st.mon['cs'][1])
            cs = st.mon['cs']
            v = st.mem.get(('G', 'cur'), MOVED)
            st.mon['curw'] = NONE
            st.mon['curk'] = st.mon['curr'] = ('k', 'no')
            st.mon['cura'] = NONE
            st.mem.pop(('G', 'cur'), None)
            st.mon['arcs'] = ('arcs',) + tuple(x for x in flatall(v) if x[0] == 'r' and x[2] == 'arc')
        else:
            self.free(st, s)

    def slept(self, e, st, s, span):
        """the member in slot s returned Pending"""
        if s == 'cur' and st.mon['cs'][1] == 'alive' and st.mon['curr'][1] != 'yes' and st.mon['curk'][1] != 'yes':
            self.rep(e, st, 'C17', 'rpc sleeps', "an RPC goes to sleep although its future or stream is not waiting for anything", span)

    def inner(self, e, st, obj, res, v, span, stream):
        s = self.slot_of(st, obj)
        if s is None:
            return
        dead = s == 'old' or (s == 'cur' and st.mon['cs'][1] != 'alive')
        if dead:
            if s == 'cur' and st.mon['cs'][1] == 'done':
                self.rep(e, st, 'C15', 'polled after its end', "a future or stream is polled again after it has finished", span)
            else:
                self.rep(e, st, 'C16', 'polled after cancel', "an RPC keeps running after it was cancelled", span)
        if res == 'pending':
            st.mon[s + 'r'] = ('k', 'yes')
            return
        self.prog(st)
        if s != 'cur' or dead:
            return
        self.n('inner-' + res)
        if st.mon['owe'][0] != 'k':
            self.rep(e, st, 'C15', 'response lost', "a response is lost: the RPC moves on before it was sent", span)
        if not stream:
            st.mon['owe'] = ('resp', v)
            st.mon['cs'] = ('k', 'done')
        elif res == 'item':
            st.mon['owe'] = ('resp', v)
        else:
            st.mon['owe'] = ('end',)
            st.mon['cs'] = ('k', 'done')

    def on_fut(self, e, st, obj, res, span, what=None, ref=None, v=None):
        self.inner(e, st, obj, res, v, span, False)

    def on_stream(self, e, st, obj, ref, res, v, span):
        self.inner(e, st, obj, res, v, span, True)

    def registered(self, st, obj):
        return obj[0] == 'y' and any(st.mon[s + 'a'] == obj for s in SLOTS)

    def on_atomicwaker(self, e, st, op, ref, obj, span):
        if op == 'register':
            s = st.mon['polling'][1]
            if s in SLOTS:
                st.mon[s + 'a'] = obj
        elif op == 'take':
            for s in SLOTS:
                if st.mon[s + 'a'] == obj and obj[0] == 'y':
                    st.mon[s + 'a'] = ('taken', obj)
        else:
            self.n('abort-wake')
            for s in SLOTS:
                if st.mon[s + 'a'] == (obj if op == 'wake' else ('taken', obj)) and obj[0] == 'y':
                    st.mon[s + 'k'] = ('k', 'yes')
                    st.mon[s + 'a'] = NONE
                    w = st.mon[s + 'w'][1]
                    if w in (FU, SA):
                        if st.mon['stale' + w][1] == 'no':
                            st.mon['woke'] = ('k', 'yes')     # the collection holds this task's waker
                        st.mon['stale' + w] = ('k', 'yes')

    def on_wake(self, e, st, span):
        st.mon['woke'] = ('k', 'yes')
        self.n('wake')
        if self.t_prog:
            st.mon['own'] = ('k', 'yes')
        s = st.mon['polling'][1]
        if s in SLOTS:
            st.mon[s + 'k'] = ('k', 'yes')

    # ---- outbound
    def on_reserve(self, e, st, obj, res, span):
        self.n('reserve-' + res)
        if res == 'ok':
            st.mon['rsv'] = ('k', 'ok')
        elif res == 'err':
            st.mon['out'] = ('k', 'closed')
        else:
            st.mon['cap'] = ('k', 'waiting')

    def on_psclose(self, e, st, obj, op, span):
        if op == 'abort_send':
            if st.mon['cap'][1] == 'waiting':
                st.mon['stale' + FU] = st.mon['stale' + SA] = ('k', 'yes')
            st.mon['rsv'] = st.mon['cap'] = ('k', 'no')     # gives up its place, or its place in line
        elif st.mon['out'][1] != 'closed' and st.mon['recv'][1] != 'closed':
            st.mon['quit'] = ('k', 'out')

    def on_rxclose(self, e, st, obj, span):
        if st.mon['out'][1] != 'closed' and st.mon['recv'][1] != 'closed':
            st.mon['quit'] = ('k', 'in')

    def on_send(self, e, st, obj, msg, how, res, ref, span):
        self.n('send')
        self.prog(st)
        if how == 'item':
            if st.mon['rsv'][1] != 'ok':
                self.rep(e, st, 'C18', 'send without room', "a response is sent without a reserved place in the queue, which panics", span)
            st.mon['rsv'] = ('k', 'no')
        if res == 'err':
            st.mon['out'] = ('k', 'closed')
        o = st.mon['owe']
        if o[0] == 'resp' and msg == o[1]:
            st.mon['owe'] = NONE
            self.n('sent-response')
            if how == 'try_send' and res == 'err':
                self.rep(e, st, 'C15', 'response may be dropped', "a response is lost when the queue is full", span)
            return
        p = st.prov.get(msg[1]) if msg[0] == 'y' else None
        if p and p[0] in ('ended', 'cancelled') and p[1][0] == 'n':
            if e.entails_eq(st, L.sub(p[1][1], st.mon['K'][1])):
                if p[0] == 'ended' and o == ('end',):
                    st.mon['owe'] = NONE
                    self.n('sent-end')
                else:
                    self.rep(e, st, 'C15', f'unexpected {p[0]}', "the end of an RPC is announced although its stream has not ended, or twice, or as a cancellation", span)
            return
        if p and p[0] == 'output' and p[1] == st.mon['cur']:
            self.rep(e, st, 'C15', 'response repeated', "a response is sent again", span)
        elif o[0] == 'end' and self.slot_of(st, ('y',)) is None and p is None and st.mon['oth'][0] != 'y':
            self.rep(e, st, 'C15', 'wrong end', "the end of a stream is announced with something other than its End message", span)

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        self.rep(e, st, 'C18', 'panic', f"the RPC server may panic ({kind})", span)

    # ---- results
    def exit(self, e, st, v, sp):
        x = ready_of(v)
        m = st.mon
        e.stats["obl"].add(('exit', 'pending' if x is None else 'ready', m['recv'][1], m['out'][1], m['cs'][1], m['curw'][1], m['oldw'][1]))
        self.unstarted(e, st, sp)
        if 'quit' in m:
            self.rep(e, st, 'C18', 'gives up its connection', "the RPC server closes " + ("its requests" if m['quit'][1] == 'in' else "its responses") + " although its connection is alive", sp)
        if x is None:
            self.n('exit-pending')
            if m['recv'][1] == 'closed' or m['out'][1] == 'closed':
                self.rep(e, st, 'C18', 'outlives its connection', "the RPC server keeps waiting although its connection is gone", sp)
            if m['owe'][0] != 'k':
                self.rep(e, st, 'C15', 'not sent', "a response or the end of a stream was produced but not sent", sp)
            if self.t_prog:
                # woken by itself, twice in a row, with nothing received, produced, sent or let go of in between
                if not (m['own'][1] == 'yes' and m['prog'][1] == 'no' and e.entails_eq(st, L.sub(st.child.get((m['rx'][1], 'cnt'), ('n', L.ZERO))[1], m['nx'][1]))):
                    m['idle'] = ('k', 'no')
                elif m['idle'][1] == 'no':
                    m['idle'] = ('k', 'yes')
                else:
                    self.rep(e, st, 'C25', 'server spins', "the RPC server wakes itself again and again although it has nothing to do", sp)
            if m['woke'][1] != 'yes':
                if m['recv'][1] != 'pending':
                    self.rep(e, st, 'C17', 'deaf to requests', "the RPC server sleeps without waiting for requests", sp)
                cnt = st.child.get((m['rx'][1], 'cnt'), ('n', L.ZERO))[1]
                if not e.entails_eq(st, L.sub(cnt, m['nx'][1])):
                    self.rep(e, st, 'C17', 'requests waiting', "the RPC server sleeps while it holds unhandled requests", sp)
                if m['cap'][1] != 'waiting':
                    for k in (FU, SA):
                        if m['stale' + k][1] == 'yes':
                            self.rep(e, st, 'C17', 'deaf to ' + k, "the RPC server sleeps although RPCs may be able to make progress", sp)
                for s in ('cur', 'old'):
                    if m[s + 'w'][1] in (FU, SA) and (s == 'old' or m['cs'][1] == 'cancelled') and m[s + 'k'][1] != 'yes':
                        self.rep(e, st, 'C16', 'cancelled rpc is kept', "a cancelled RPC stays in the server and is not dropped", sp)
            if m['cs'][1] == 'alive' and m['curw'][1] not in (FU, SA):
                self.rep(e, st, 'C15', 'rpc not held', "an accepted RPC is not held for polling", sp)
            if m['curw'] == NONE and m['cs'][1] in ('done', 'cancelled') and m.get('arcs', NONE)[0] == 'arcs':
                cs = cells_of(st, [e.load(st, SELF)])
                if any(a[1][1] in cs for a in m['arcs'][1:]):
                    self.rep(e, st, 'C16', 'state kept', "the server keeps state for an RPC that is over", sp)
                m['arcs'] = NONE
            return
        ok = x[0] == 's' and x[1][0] == 'adt' and x[1][1] == M.RESULT and x[2] == 0
        self.n('exit-ok' if ok else 'exit-err')
        if ok:
            if m['recv'][1] != 'closed' and m['out'][1] != 'closed':
                self.rep(e, st, 'C18', 'ends early', "the RPC server ends although its connection is alive", sp)
        else:
            if m['out'][1] != 'closed' and m['recv'][1] != 'closed':
                self.rep(e, st, 'C18', 'fails early', "the RPC server fails although its connection is alive", sp)


def cells_of(st, roots):
    seen, ys = set(), set()
    chix = {}
    for k, v in st.child.items():
        chix.setdefault(k[0], []).append(v)
    work = list(roots)
    while work:
        v = work.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == 'y':
            if v[1] not in ys:
                ys.add(v[1])
                work += chix.get(v[1], ())
            continue
        if v[0] == 'loc':
            if v[1] not in seen:
                seen.add(v[1])
                work.append(st.mem.get(v[1], MOVED))
            continue
        if v[0] in ('n', 'fn', 'bs'):
            continue
        work += [x for x in v if isinstance(x, tuple)]
    return seen


def flatall(v):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 's':
        for _, x in v[4]:
            yield from flatall(x)
    else:
        yield v


def run(prog, mode='old', max_steps=400000):
    srv = adt_id(prog, 'RpcConnectionServer')
    if srv is None:
        return None, None, 'RpcConnectionServer'
    new, poll = find_ctor(prog, srv), find_trait(prog, srv, 'Future', 'poll')
    if new is None or poll is None:
        return None, None, 'RpcConnectionServer::new / Future'
    if CODE not in prog.adts:
        return None, None, 'ProtosocketControlCode'
    mon = SrvMon([v[0] for v in prog.adts[CODE]["v"]], mode)
    models = SrvModels(mon)
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    mon.init(e, st)
    args = []
    for i in range(1, new.argc + 1):
        t = new.locals[i]
        v = e.fresh(st, t)
        if v[0] == 'y' and t[0] == 'adt' and t[1].endswith('Receiver'):
            st.mon['rx'] = v
            st.prov[v[1]] = ('rx', 'mpsc')
            st.child[(v[1], 'cnt')] = ('n', L.ZERO)
        args.append(v)
    if st.mon['rx'][0] != 'y':
        return None, None, 'the receiver of inbound requests'
    e.push(st, new, args, None, {})
    work = []
    for s, v in e.run(st):
        s.mem[SELF[1]] = v
        work.append(s)
    rounds = 0
    while work:
        got = {}
        for s in work:
            mon.entry(e, s)
            s.flags = s.flags & {UNKNOWN}
            r = e.merge(s, ('entry',), True)
            if r is not None:
                got[r[:2]] = r[2]
        work = []
        for s in got.values():
            rounds += 1
            s.fr = ()
            e.push(s, poll, [('r', SELF, 'mut'), M.ctx_ref(e, s)], None, {})
            for t, v in e.run(s):
                mon.exit(e, t, v, poll.sp)
                if ready_of(v) is None:
                    work.append(t)
    return e, mon, rounds
