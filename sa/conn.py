"""protosocket::Connection: life-cycle analysis (new, then any number of polls) and its property automata.

Ghost state (st.mon):
  arm    wake sources registered in this poll            why    terminating events seen in this poll
  R, C   bytes received from / consumed from the socket   dec    outcome of the last decode since the last read
  del    messages handed to the reactor                   enc    messages encoded
  pop    encoded buffers removed from the write queue     debt   bytes written minus bytes removed from the queue
"""
import lin as L
from eng import Engine, St, Frame, SFrame, U, MOVED, TRUE
from ir import subst, tystr
import models as M
from models import Models, adt, strip_refs, clen, with_, classify
from m_iter import as_it

CONN = 'protosocket::connection::Connection'
SELF = ('loc', ('G', 'self'), ())


def find_inherent(prog, aid, name):
    for b in prog.bodies.values():
        if not b.ext and b.self is not None and b.self[0] == 'adt' and b.self[1] == aid and not b.tr and b.id.split('::')[-1] == name:
            return b
    return None


def mentions(t, aid):
    return isinstance(t, tuple) and ((len(t) > 1 and t[0] == 'adt' and t[1] == aid) or any(mentions(x, aid) for x in t))


def find_ctor(prog, aid):
    """the constructor: `new`, or else the only associated function without self that returns the type"""
    b = find_inherent(prog, aid, 'new')
    if b is not None:
        return b
    c = [b for b in prog.bodies.values() if not b.ext and b.self is not None and b.self[0] == 'adt' and b.self[1] == aid and not b.tr
         and mentions(b.locals[0], aid) and not any(mentions(b.locals[i], aid) for i in range(1, b.argc + 1))]
    return c[0] if len(c) == 1 else None


def find_trait(prog, aid, tr, name):
    for im in prog.impls:
        if im["self"][0] == 'adt' and im["self"][1] == aid and im["tr"].split('::')[-1] == tr:
            i = im["items"].get(("fn", name))
            if i in prog.bodies:
                return prog.bodies[i]
    return None


def walk_containers(v, path=()):
    if v[0] == 'c':
        yield path, v
        if v[4][0] == 'list':
            for i, x in enumerate(v[4][1]):
                yield from walk_containers(x, path + (i,))
    elif v[0] == 's':
        for i, x in v[4]:
            yield from walk_containers(x, path + (i,))
    elif v[0] == 'it':
        for x in v[2:]:
            if isinstance(x, tuple) and x and x[0] in ('c', 's', 'it'):
                yield from walk_containers(x, path)


def renumber(v):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'seq' and len(v) > 4 and v[1][0] == 'encq':
        return v[:2] + (('n', L.addc(v[2][1], 1)),) + v[3:4] + tuple(renumber(x) for x in v[4:])
    if v[0] == 'enc' and len(v) == 4:
        return v[:2] + (('n', L.addc(v[2][1], 1)),) + v[3:]
    if v[0] in ('c', 's', 'it', 'list', 'bytes') or isinstance(v[0], tuple):
        return tuple(renumber(x) if isinstance(x, tuple) else x for x in v)
    if len(v) == 2 and isinstance(v[0], int):
        return (v[0], renumber(v[1]))
    return v


class ConnMon:
    """the automata for C01-C08"""

    def __init__(self, want=None):
        self.count = {}
        w = self.want = set(want or ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'))
        # ghost state that only some properties read is tracked only for those
        self.t_arm = bool(w & {'C05'})
        self.t_why = bool(w & {'C03', 'C04', 'C05', 'C07'})
        self.t_dec = bool(w & {'C03', 'C05', 'C06', 'C07', 'C25'})
        self.t_hint = bool(w & {'C06', 'C07'})
        self.t_elen = bool(w & {'C07'})
        self.t_prog = bool(w & {'C25'})
        self.t_debt = bool(w & {'C01'})

    def n(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    # ---- ghost helpers
    def ml(self, st):
        l = st.mon['lim'][1]
        return l[1] if l[0] == 'n' else None

    def mq(self, st):
        l = st.mon['lim'][2]
        return l[1] if l[0] == 'n' else None

    def g(self, st, k):
        return st.mon[k][1]

    def s(self, e, st, k, lin):
        st.mon[k] = ('n', e.N(st, lin))

    def init(self, e, st):
        for k in ('R', 'C', 'del', 'enc', 'pop', 'debt'):
            st.mon[k] = ('n', L.ZERO)
        if not self.t_debt:
            st.mon['debt'] = ('k', 'off')
        self.entry(e, st)

    def entry(self, e, st):
        st.mon['arm'] = ('set',)
        st.mon['why'] = ('set',)
        st.mon['hint'] = ('k', 'none')
        st.mon['elen'] = st.mon['flen'] = ('k', 'none')
        st.mon['beyond'] = ('k', 'no')
        st.mon['prog'] = st.mon['tried'] = ('k', 'no')
        for k in ('idle', 'rxc'):
            if k not in st.mon:
                st.mon[k] = ('k', 'no')
        if 'dec' not in st.mon:
            st.mon['dec'] = ('k', 'empty')

    def decstate(self, st, k, hint=None):
        if self.t_dec:
            st.mon['dec'] = ('k', k)
        st.mon['hint'] = ('n', hint) if hint is not None and self.t_hint else ('k', 'none')

    def arm(self, st, k, on):
        if not (self.t_arm or self.t_prog and k == 'woken'):
            return
        s = set(st.mon['arm'][1:])
        (s.add if on else s.discard)(k)
        if 'woken' in s:
            s = {'woken'}
        st.mon['arm'] = ('set',) + tuple(sorted(s))

    def prog(self, st):
        """something was done that cannot be done again and again without the world changing"""
        if self.t_prog:
            st.mon['prog'] = ('k', 'yes')

    def why(self, st, k):
        if not self.t_why:
            return
        st.mon['why'] = ('set',) + tuple(sorted(set(st.mon['why'][1:]) | {k}))

    def key(self, e, st, what):
        return e.fnname(st).split('::')[-1] + ": " + what

    # ---- inbound
    def on_read(self, e, st, sl, n, obj, span):
        self.n('read')
        self.prog(st)
        R, C = self.g(st, 'R'), self.g(st, 'C')
        c = e.load(st, sl[1])
        lo = sl[2][1]
        if c[0] != 'c' or c[4][0] != 'bytes':
            e.undecide('C02', 'read-dest', 'socket bytes are read into an untracked buffer', st)
            self.s(e, st, 'R', L.add(R, n))
            return
        w = c[4][1]
        good = False
        if isinstance(w, tuple) and w[0] == 'win' and e.entails_eq(st, L.sub(L.add(w[2][1], lo), R)) and e.entails_eq(st, L.sub(w[4][1], lo)):
            nw = ('win', w[1], w[2], w[3], ('n', L.add(lo, n)))
            good = True
        elif e.entails_eq(st, L.sub(R, C)):
            nw = ('win', obj, ('n', L.sub(R, lo)), ('n', lo), ('n', L.add(lo, n)))
            good = True
        else:
            e.report('C02', self.key(e, st, 'read placed'), "bytes read from the socket are not placed directly after the bytes received but not yet consumed", st, span)
            nw = 'junk'
        e.store(st, sl[1], with_(c, content=('bytes', nw)))
        if self.ml(st) is not None:
            if not e.entails_ge(st, L.addc(L.sub(self.ml(st), L.sub(R, C)), -1)):
                e.report('C06', self.key(e, st, 'read past the limit'), "the socket is read although max_buffer_length unconsumed bytes are already buffered", st, span)
            self.n('read-limit')
        self.s(e, st, 'R', L.add(R, n))
        self.decstate(st, 'fresh')

    def on_io(self, e, st, op, what, res, obj, span, room=None):
        self.n(f'{op}-{what}')
        if op == 'ready':
            self.arm(st, what, res == 'pending')
            if res == 'err':
                self.why(st, 'fatal')
        elif op == 'read':
            self.prog(st)
            if res == 'eof':
                if room is None or e.entails_ge(st, L.addc(room, -1)):
                    self.why(st, 'eof')
                else:
                    # an empty destination: Ok(0) says nothing about the peer
                    e.report('C07', self.key(e, st, 'empty read'), "the socket may be read into an empty buffer, whose Ok(0) is indistinguishable from end of stream", st, span)
                    self.why(st, 'eof')
            elif res == 'other':
                self.why(st, 'fatal')
            else:
                self.arm(st, 'read', False)
        elif op == 'write':
            self.prog(st)
            if res == 'zero':
                self.why(st, 'fatal')
            elif res == 'other':
                self.why(st, 'fatal')
            else:
                self.arm(st, 'write', False)

    def on_decode(self, e, st, sl, obj, span):
        self.n('decode')
        if sl is None:
            e.undecide('C02', 'decode-arg', 'decode is called with an untracked buffer', st)
            return
        R, C = self.g(st, 'R'), self.g(st, 'C')
        c = e.load(st, sl[1])
        lo, hi = sl[2][1], sl[3][1]
        w = c[4][1] if c[0] == 'c' and c[4][0] == 'bytes' else None
        if isinstance(w, tuple) and w[0] == 'win':
            ok = e.entails_eq(st, L.sub(L.add(w[2][1], lo), C)) and e.entails_eq(st, L.sub(L.add(w[2][1], hi), R)) \
                and e.entails_ge(st, L.sub(lo, w[3][1])) and e.entails_ge(st, L.sub(w[4][1], hi))
            if not ok:
                e.report('C02', self.key(e, st, 'decode window'), "the deserializer is not given exactly the received, not yet consumed bytes", st, span)
        elif e.entails_eq(st, L.sub(hi, lo)) and e.entails_eq(st, L.sub(R, C)):
            pass
        else:
            e.report('C02', self.key(e, st, 'decode window'), "the deserializer is given bytes that were not received from the socket in this order", st, span)
        self.decstate(st, 'in')

    def on_decoded(self, e, st, res, n, sl, obj, span):
        # the same error value, yet nothing was consumed: not to be merged with a skip within the buffer
        st.mon['beyond'] = ('k', 'yes' if res == 'skipwait' else 'no')
        C = self.g(st, 'C')
        if self.t_prog:
            st.mon['tried'] = ('k', 'yes')
        if res in ('msg', 'skip'):
            self.prog(st)
            self.s(e, st, 'C', L.add(C, n))
            self.decstate(st, 'fresh')
        elif res == 'invalid':
            self.why(st, 'invalid')
            self.decstate(st, 'stop')
        else:
            self.decstate(st, 'wait', n if res == 'incomplete' else None)

    def on_react(self, e, st, it, obj, span):
        self.n('react')
        i = as_it(e, st, it)
        if i is None:
            if it[0] == 'm' or it[0] == 'y':
                e.undecide('C02', 'react-arg', 'the reactor is given an untracked iterator', st)
                cnt = self.decn(e, st)
                self.s(e, st, 'del', cnt)
            return
        while i[0] == 'it' and i[1] == 'byref':
            i = as_it(e, st, e.load(st, i[2][1]))
        if i[1] != 'own':
            e.report('C02', self.key(e, st, 'reactor input'), f"the reactor is given a {i[1]} iterator instead of the decoded messages in order", st, span)
            return
        c = i[2]
        self.deliver(e, st, c, span)

    def deliver(self, e, st, c, span):
        n = clen(c)
        if e.entails_eq(st, n):
            return
        d = self.g(st, 'del')
        if c[4][0] == 'seq' and c[4][1][0] == 'dec' and c[4][3] == '+' or (c[4][0] == 'seq' and e.entails_ge(st, L.sub(L.ONE, n))):
            if not e.entails_eq(st, L.sub(c[4][2][1], d)):
                e.report('C02', self.key(e, st, 'reactor order'), "the reactor is not given the next undelivered messages in the order they were decoded", st, span)
            self.s(e, st, 'del', L.add(c[4][2][1], n))
            self.n('deliver')
            if e.entails_ge(st, L.addc(n, -1)):
                self.prog(st)
        else:
            e.report('C02', self.key(e, st, 'reactor order'), "the reactor is given messages that are not in the order they were decoded", st, span)

    def on_reacted(self, e, st, res, span):
        if res == 'disconnect':
            self.why(st, 'disconnect')

    # ---- outbound
    def on_recv(self, e, st, obj, res, n, span):
        self.n('recv')
        if res == 'items':
            self.prog(st)
        self.arm(st, 'chan', res == 'pending')
        if res == 'closed' and self.t_why:
            self.why(st, 'closed')
            st.child[(obj[1], 'closed')] = ('k', 'closed')

    def on_rxclose(self, e, st, obj, span):
        if 'closed' not in st.mon['why'] and not (obj[0] == 'y' and (obj[1], 'closed') in st.child):
            st.mon['rxc'] = ('k', 'yes')

    def on_rxclosed(self, e, st, obj, span):
        # every sender is gone; messages may still be queued
        if self.t_why:
            self.why(st, 'closed')

    def drained(self, e, st):
        return any(isinstance(k, tuple) and len(k) == 2 and k[1] == 'closed' for k in st.child)

    def on_encode(self, e, st, msg, item, buf, loc, n, clean, span):
        self.n('encode')
        self.prog(st)
        x = self.g(st, 'enc')
        if not clean:
            e.report('C01', self.key(e, st, 'dirty buffer'), "a message is encoded into a buffer that may still hold other bytes", st, span)
        if not (item and item[0] == 'item' and item[1][0] == 'chan'):
            e.report('C01', self.key(e, st, 'encode source'), "the encoded value is not a message received from the outbound queue", st, span)
            return
        idx = item[2][1]
        if not e.entails_eq(st, L.sub(idx, x)):
            e.report('C01', self.key(e, st, 'encode order'), "messages are not encoded exactly once each in the order they were queued", st, span)
        self.s(e, st, 'enc', L.addc(idx, 1))
        if self.t_elen:
            st.mon['elen'] = ('n', n)

    def on_disorder(self, e, st, c, v, why, span=None):
        s = c[4][1] if c[4][0] in ('seq', 'mix') else None
        if s is None and v is not None:
            cl = classify(e, st, v)
            s = cl[1] if cl[0] == 'idx' else None
        if s is None:
            return
        p = 'C02' if s[0] == 'dec' else 'C01'
        e.report(p, self.key(e, st, 'order ' + s[0]), why, st, span)

    def enc_of(self, e, st, v):
        if v is not None and v[0] == 'c' and v[4][0] == 'bytes' and isinstance(v[4][1], tuple) and v[4][1][0] == 'enc':
            return v[4][1][2][1]
        return None

    def adj_push(self, e, st, v, old, end):
        """a buffer that has left the write queue and goes anywhere but back to it is spare"""
        i = self.enc_of(e, st, v)
        if i is not None and end != 'front' and self.void(e, st, v, i) and self.spares(e, st, old):
            self.skip_empty(e, st)
            return with_(v, content=('bytes', 'junk'))
        if i is None or end == 'front' or (old[4][0] == 'seq' and old[4][1][0] == 'encq') or not e.entails_ge(st, L.addc(L.sub(self.g(st, 'pop'), i), -1)):
            return v
        return with_(v, content=('bytes', 'junk'))

    def void(self, e, st, v, i):
        """the latest encoding is empty: there is nothing of it to write"""
        return e.entails_eq(st, clen(v)) and e.entails_eq(st, L.sub(L.addc(i, 1), self.g(st, 'enc')))

    def spares(self, e, st, c):
        """a container that is not the write queue: that one holds the unsent buffers, or is an empty VecDeque"""
        if c[4][0] == 'seq':
            return c[4][1][0] != 'encq'
        return c[1] == 'vec' or not e.entails_eq(st, clen(c))

    def skip_empty(self, e, st):
        """an encoding without bytes is complete: the buffers ahead of it move up in the numbering"""
        for k in list(st.mem):
            st.mem[k] = renumber(st.mem[k])
        self.s(e, st, 'pop', L.addc(self.g(st, 'pop'), 1))
        self.n('empty-encoding')

    def on_drop(self, e, st, v, span):
        i = self.enc_of(e, st, v)
        if i is not None and self.void(e, st, v, i):
            self.skip_empty(e, st)

    def on_pop(self, e, st, loc, v, end, old, new, span=None):
        i = self.enc_of(e, st, v)
        if i is None:
            return
        if end != 'front' and not e.entails_ge(st, L.sub(L.ONE, clen(old))):
            return
        self.n('pop')
        st.mon['flen'] = ('k', 'none')
        self.s(e, st, 'debt', L.sub(self.g(st, 'debt'), clen(v))) if st.mon['debt'][0] == 'n' else None
        p = self.g(st, 'pop')
        if not e.entails_eq(st, L.sub(i, p)):
            e.report('C01', self.key(e, st, 'queue order'), "an encoded buffer leaves the write queue out of order", st, span)
        self.s(e, st, 'pop', L.addc(i, 1))

    def on_push(self, e, st, loc, v, end, old, new, span=None):
        i = self.enc_of(e, st, v)
        if i is None:
            return
        st.mon['elen'] = ('k', 'none')
        if end == 'front':
            p = self.g(st, 'pop')
            if self.t_elen:
                st.mon['flen'] = ('n', clen(v))
            if e.entails_eq(st, L.sub(L.addc(i, 1), p)):
                self.s(e, st, 'pop', i)
                if st.mon['debt'][0] == 'n':
                    self.s(e, st, 'debt', L.add(self.g(st, 'debt'), clen(v)))
            elif not e.entails_eq(st, clen(old)):
                e.report('C01', self.key(e, st, 'queue order'), "an encoded buffer is put in front of the write queue out of order", st, span)
            return
        if not e.entails_ge(st, L.addc(clen(v), -1)):
            e.report('C07', self.key(e, st, 'empty write'), "a message that encodes to nothing is queued for sending: writing nothing is taken for a closed stream and ends the connection", st, span)
            if not e.assume_ge(st, L.addc(clen(v), -1)):
                return
        if self.ml(st) is not None:
            self.n('queue-limit')
            if not e.entails_ge(st, L.sub(self.ml(st), clen(v))):
                e.report('C06', self.key(e, st, 'oversized'), "an encoded message longer than max_buffer_length may be queued for sending", st, span)

    def on_front_resized(self, e, st, stream, old, new, span=None):
        if self.t_elen:
            st.mon['flen'] = ('n', clen(new))
        if st.mon['debt'][0] == 'n':
            self.s(e, st, 'debt', L.sub(self.g(st, 'debt'), L.sub(clen(old), clen(new))))

    def on_drain(self, e, st, loc, c, k, span=None):
        if c[4][0] == 'seq' and c[4][1][0] == 'encq':
            st.mon['debt'] = ('k', 'lost')
            self.s(e, st, 'pop', L.add(self.g(st, 'pop'), k))
            e.undecide('C01', 'drain', 'buffers are drained in bulk from the write queue', st)

    def on_clear(self, e, st, loc, old, span=None):
        if old[4][0] == 'seq':
            p = {'encq': 'C01', 'chan': 'C01', 'dec': 'C02'}.get(old[4][1][0])
            if p and not e.entails_eq(st, clen(old)):
                e.report(p, self.key(e, st, 'cleared ' + old[4][1][0]), "queued messages are discarded", st, span)

    def on_write(self, e, st, src, n, obj, span):
        self.n('write')
        self.prog(st)
        self.settled(e, st, span, 'write')
        kind, sl = src
        P = self.g(st, 'pop')
        if kind == 'iov':
            c = e.load(st, sl[1])
            okk = c[0] == 'c' and c[4][0] == 'seq' and c[4][1][0] == 'io' and c[4][3] == '+' and e.entails_eq(st, c[4][2][1]) \
                and e.entails_eq(st, sl[2][1])
            if not okk:
                if c[0] == 'c' and c[4][0] == 'seq' and c[4][1][0] == 'io' or c[0] == 'c' and c[4][0] in ('mix', 'unk'):
                    e.report('C01', self.key(e, st, 'write source'), "the bytes written are not the unsent buffers from the front of the write queue, in order and in full", st, span)
                else:
                    e.undecide('C01', 'write-source', 'untracked write source', st)
            else:
                q = e.load(st, c[4][1][1])
                if q[0] == 'c' and q[4][0] == 'seq' and q[4][1][0] == 'encq' and q[4][3] == '+':
                    if not e.entails_eq(st, L.sub(q[4][2][1], P)):
                        e.report('C01', self.key(e, st, 'write source'), "the write does not start at the first unsent buffer", st, span)
                elif not (q[0] == 'c' and e.entails_eq(st, clen(q))):
                    e.report('C01', self.key(e, st, 'write source'), "the write queue does not hold the encoded messages in order", st, span)
        else:
            cl = sl[1]
            c = e.load(st, cl)
            i = self.enc_of(e, st, c)
            if i is None or not e.entails_eq(st, L.sub(i, P)) or not e.entails_eq(st, sl[2][1]):
                e.report('C01', self.key(e, st, 'write source'), "the bytes written are not the front of the write queue", st, span)
        if st.mon['debt'][0] == 'n':
            self.s(e, st, 'debt', L.add(self.g(st, 'debt'), n))

    def alongside(self, e, st):
        """the front of the write queue is certainly not alone in it, so there is something to write"""
        q = self.queue(e, st)
        return q != 'many' and e.entails_ge(st, L.addc(clen(q), -2))

    def settled(self, e, st, span, where):
        f = st.mon['flen']
        if f[0] == 'n' and not e.entails_ge(st, L.addc(f[1], -1)) and not self.alongside(e, st) and not self.doomed(e, st):
            e.report('C07', self.key(e, st, 'empty write'), "a buffer of which everything was sent stays in front of the write queue: writing nothing is taken for a closed stream and ends the connection", st, span)
        st.mon['flen'] = ('k', 'none')
        if st.mon['debt'][0] != 'n':
            return
        if not e.entails_eq(st, self.g(st, 'debt')):
            # an empty queue cannot owe anything: the kernel never reports more than it was given
            q = self.queue(e, st)
            if q != 'many' and e.entails_eq(st, clen(q)) and self.nonneg(e, st):
                self.s(e, st, 'debt', L.ZERO)
                return
            if self.doomed(e, st):
                return
            e.report('C01', self.key(e, st, 'partial write ' + where), "after a (partial) write the queue does not drop exactly the bytes that were written", st, span)
            st.mon['debt'] = ('n', L.ZERO)

    def doomed(self, e, st):
        """True if the state is unreachable because more was written than was queued"""
        return False

    def nonneg(self, e, st):
        return e.entails_ge(st, self.g(st, 'debt'))

    # ---- memory safety, panics
    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        if kind.startswith('assert:overflow:Add') or kind.startswith('assert:overflow:Mul'):
            return
        if kind.startswith('assert:ResumedAfter'):
            return
        e.report('C08', self.key(e, st, kind), f"may panic: {kind}", st, span)

    def on_proved(self, e, st, what, span):
        self.n('bounds')

    def on_set_len(self, e, st, loc, c, n, ok, span):
        self.n('set_len')
        if not ok:
            e.report('C08', self.key(e, st, 'set_len'), "set_len is not covered by the reserved capacity", st, span)

    # ---- exits
    def decn(self, e, st):
        des = self.field_y(e, st, 'decn')
        return des

    def field_y(self, e, st, k):
        for key, v in st.child.items():
            if len(key) == 2 and key[1] == k:
                return v[1]
        return L.ZERO

    def containers(self, e, st):
        q = m = d = None
        v = st.mem[SELF[1]]
        for path, c in walk_containers(v):
            ct = c[4]
            if ct[0] in ('seq', 'mix') and not e.entails_eq(st, clen(c)):
                k = ct[1][0]
                if k == 'encq':
                    q = c if q is None else 'many'
                elif k == 'chan':
                    m = c if m is None else 'many'
                elif k == 'dec':
                    d = c if d is None else 'many'
        return q, m, d

    def queue(self, e, st):
        q, _, _ = self.containers(e, st)
        return q if q is not None else M.cont('deque')

    def exit(self, e, st, val, span):
        var = val[2] if val[0] == 's' else None
        if var is None and val[0] == 'y':
            cur = st.vf.get(val[1])
            var = next(iter(cur)) if isinstance(cur, frozenset) and len(cur) == 1 else None
        pend = var == 1
        e.stats["obl"].add(('exit', 'pending' if pend else 'ready', str(st.mon['why'][1:]) + str(st.mon['arm'][1:])))
        self.n('exit-pending' if pend else 'exit-ready')
        why = set(st.mon['why'][1:])
        armed = set(st.mon['arm'][1:])
        q, m, d = self.containers(e, st)
        enc, pop, dl = self.g(st, 'enc'), self.g(st, 'pop'), self.g(st, 'del')
        R, C = self.g(st, 'R'), self.g(st, 'C')
        cnt = self.field_y(e, st, 'cnt')
        decn = self.field_y(e, st, 'decn')
        rep = lambda p, k, t: e.report(p, 'poll: ' + k, t, st, span)
        hint = st.mon['hint']
        fatal = why - {'closed'}
        toolong = False
        if hint[0] == 'n' and st.mon['dec'] == ('k', 'wait') and self.ml(st) is not None:
            if e.entails_ge(st, L.addc(L.sub(hint[1], self.ml(st)), -1)):
                toolong = True
        eq = lambda a, b: e.entails_eq(st, L.sub(a, b))
        if not pend:
            # the connection completes
            cause = why | ({'toolong'} if toolong else set()) | ({'oversized'} if self.oversized(e, st) else set())
            if st.mon.get('stuck') == ('k', 'yes'):
                cause.add('stuck')
            if not cause and not self.full(e, st):
                rep('C07', 'completes without cause', "the connection completes although nothing ended it (no end of stream, fatal error, invalid data, reactor disconnect or closed queue)")
            if 'disconnect' not in why:
                if d is not None or not eq(dl, decn):
                    rep('C03', 'decoded but undelivered', "the connection completes while messages already decoded have not been given to the reactor")
                if 'eof' in why and not eq(R, C) and st.mon['dec'][1] in ('fresh', 'idle', 'in'):
                    rep('C03', 'received but undecoded at end of stream', "the connection completes at end of stream while received bytes were not offered to the deserializer")
            if cause == {'closed'}:
                if q is not None or not eq(pop, enc) or (m is not None) or not eq(enc, cnt) or not self.drained(e, st):
                    rep('C04', 'closed with unsent messages', "all senders are gone, but the connection completes before every accepted message is written")
            return
        # the connection waits
        self.settled(e, st, span, 'pending')
        if fatal:
            rep('C07', 'survives ' + '/'.join(sorted(fatal)), f"the connection keeps running after {', '.join(sorted(fatal))}")
        if toolong or (hint[0] == 'n' and self.ml(st) is not None and st.mon['dec'] == ('k', 'wait') and not e.entails_ge(st, L.sub(self.ml(st), hint[1]))):
            rep('C06', 'announced message too long', "the connection keeps waiting for an inbound message longer than max_buffer_length")
        # conservation
        if q == 'many' or (q is not None and (q[4][0] != 'seq' or q[4][3] != '+' and not e.entails_ge(st, L.sub(L.ONE, clen(q))))):
            rep('C01', 'write queue order', "the write queue no longer holds the encoded messages in order")
        elif q is not None:
            if not eq(L.add(q[4][2][1], clen(q)), enc) or not eq(q[4][2][1], pop):
                rep('C01', 'write queue complete', "an encoded message is missing from the write queue")
        elif not eq(pop, enc):
            rep('C01', 'write queue complete', "an encoded message is missing from the write queue")
        if m == 'many' or (m is not None and m[4][0] != 'seq'):
            rep('C01', 'message buffer order', "received outbound messages are no longer held in order")
        elif m is not None:
            if not eq(m[4][2][1], enc) or not eq(L.add(m[4][2][1], clen(m)), cnt):
                rep('C01', 'message buffer complete', "an outbound message taken from the queue is lost before it is encoded")
        elif not eq(enc, cnt):
            rep('C01', 'message buffer complete', "an outbound message taken from the queue is lost before it is encoded")
        if d == 'many' or (d is not None and d[4][0] != 'seq'):
            rep('C02', 'decoded order', "decoded messages are no longer held in order")
        elif d is not None:
            if not eq(d[4][2][1], dl) or not eq(L.add(d[4][2][1], clen(d)), decn):
                rep('C02', 'decoded complete', "a decoded message is lost before it reaches the reactor")
        elif not eq(dl, decn):
            rep('C02', 'decoded complete', "a decoded message is lost before it reaches the reactor")
        # bounds
        if self.mq(st) is not None:
            if q not in (None, 'many') and not e.entails_ge(st, L.sub(self.mq(st), clen(q))):
                rep('C06', 'send queue bound', "the write queue may exceed max_queued_send_messages")
            if m not in (None, 'many') and not e.entails_ge(st, L.sub(self.mq(st), clen(m))):
                rep('C06', 'message buffer bound', "more than max_queued_send_messages outbound messages may be taken from the channel ahead of sending")
        if st.mon['rxc'][1] == 'yes':
            rep('C07', 'closes its queue', "the connection refuses further outbound messages although nothing has ended it")
        # liveness
        if self.t_prog:
            # nothing left to do: no bytes, or only the beginning of a message; nothing to deliver; nothing to encode
            rest = (eq(R, C) or st.mon['tried'][1] == 'yes' and st.mon['dec'][1] == 'wait') and d is None and (m is None or q not in (None, 'many'))
            if not ('woken' in armed and st.mon['prog'][1] == 'no' and rest):
                st.mon['idle'] = ('k', 'no')
            elif st.mon['idle'][1] == 'no':
                st.mon['idle'] = ('k', 'yes')       # once is fine: it may have put its buffers in order
            else:
                rep('C25', 'spins', "the connection wakes itself again and again although it has nothing to read, write, decode, deliver or encode")
        if 'woken' in armed:
            return
        if 'read' not in armed:
            rep('C05', 'not waiting for input', "the connection goes to sleep without being woken by readable input (and without a wake-up of its own)")
        if not eq(R, C) and st.mon['dec'][1] not in ('wait', 'empty'):
            rep('C05', 'undecoded input', "the connection goes to sleep while received bytes have not been offered to the deserializer")
        if d is not None:
            rep('C05', 'undelivered messages', "the connection goes to sleep while decoded messages wait for the reactor")
        if q is not None and 'write' not in armed:
            rep('C05', 'not waiting for output', "the connection goes to sleep with unsent bytes without being woken by a writable socket")
        if 'closed' in why and self.drained(e, st):
            if q is None:
                rep('C05', 'closed but idle', "every sender is gone and everything is written, but the connection does not complete")
        elif not ('chan' in armed and m is None) and not (q is not None and 'write' in armed):
            rep('C05', 'not waiting for messages', "the connection goes to sleep without being woken by new outbound messages")

    def full(self, e, st):
        """the receive buffer is full and decoding cannot proceed: a legitimate reason to give up"""
        R, C = self.g(st, 'R'), self.g(st, 'C')
        if self.ml(st) is None or st.mon['dec'][1] != 'wait':
            return False
        return e.entails_ge(st, L.sub(L.sub(R, C), self.ml(st)))

    def oversized(self, e, st):
        x = st.mon['elen']
        return x[0] == 'n' and self.ml(st) is not None and e.entails_ge(st, L.addc(L.sub(x[1], self.ml(st)), -1))

    def on_wake(self, e, st, span):
        self.n('wake')
        self.arm(st, 'woken', True)


class ConnModels(Models):
    """Weakening at loop heads and between polls: an empty (or unread) buffer is an empty sequence of
    whatever stream that field was seen to hold, so that it meets the non-empty case in one shape."""

    def __init__(self):
        super().__init__()
        self.tmpl = {}
        self._caps = {}
        self.keepcap = False
        self.mon = None

    def simplify(self, e, st, key, widen):
        v = st.mem.get(SELF[1])
        if v is None:
            return
        for x in st.mon.get('lim', ())[1:]:
            # configured limits are positive
            if x[0] == 'n' and not e.assume_ge(st, L.addc(x[1], -1)):
                return False
        if 'R' in st.mon and st.mon['dec'][1] in ('fresh', 'wait') and e.entails_eq(st, L.sub(st.mon['R'][1], st.mon['C'][1])):
            # nothing is waiting to be decoded
            self.mon.decstate(st, 'empty')
        h = st.mon.get('hint')
        if h is not None and h[0] == 'n' and self.mon.ml(st) is not None and e.entails_ge(st, L.sub(self.mon.ml(st), h[1])):
            st.mon['hint'] = ('k', 'none')
        entry = key == ('poll-entry',)
        self.keepcap = self.caps(st)
        st.mem[SELF[1]] = self.weaken(e, st, v, (), entry, widen)
        if entry:
            st.mem.pop(('G', 'ctx'), None)
            st.mem.pop(('G', 'waker'), None)
        d = st.mon.get('debt')
        if d is not None and d[0] == 'n' and e.N(st, d[1]) != L.ZERO and self.mon is not None:
            q = self.mon.queue(e, st)
            if q != 'many' and e.entails_eq(st, clen(q)):
                # the kernel never takes more bytes than the queue held
                if not e.assume_ge(st, L.neg(d[1])):
                    return False

    def caps(self, st):
        """capacities matter where a length is set by hand"""
        for f in st.fr:
            if isinstance(f, Frame):
                r = self._caps.get(f.body.id)
                if r is None:
                    r = any(t["k"] == "call" and t["f"][0] == 'k' and 'set_len' in str(t["f"]) for _, t in f.body.bbs)
                    self._caps[f.body.id] = r
                if r:
                    return True
        return False

    def ints(self, v, path):
        if v[0] == 's':
            for i, x in v[4]:
                yield from self.ints(x, path + ((v[2], i),))
        elif v[0] == 'n':
            yield path, v[1]

    def weaken(self, e, st, v, path, entry, widen):
        if v[0] == 's':
            return ('s', v[1], v[2], v[3], tuple((i, self.weaken(e, st, x, path + (i,), entry, widen)) for i, x in v[4]))
        if v[0] != 'c':
            return v
        ct = v[4]
        if v[3] is not None and not self.keepcap:
            v = with_(v, cap=None)
        if ct[0] == 'seq':
            if e.N(st, clen(v)) != L.ZERO:
                self.tmpl[path] = ('seq', ct[1], ct[3])
            if ct[4] is not None and widen:
                v = with_(v, content=('seq', ct[1], ct[2], ct[3], None))
        elif ct[0] == 'all':
            self.tmpl[path] = ct
        elif ct[0] == 'bytes' and isinstance(ct[1], tuple) and ct[1][0] == 'win':
            w = ct[1]
            R, C = st.mon['R'][1], st.mon['C'][1]
            t = self.tmpl.get(path)
            if not t or t[0] != 'win':
                t = self.tmpl[path] = ('win', w[1], [None])
            if e.entails_eq(st, L.sub(R, C)):
                # nothing unconsumed: the window may be placed anywhere; put it where the cursors say
                if t[2][0]:
                    hi = e.load(st, ('loc', SELF[1], t[2][0][0]))
                    if hi[0] == 'n':
                        hl = e.N(st, hi[1])
                        v = with_(v, content=('bytes', ('win', w[1], ('n', L.sub(R, hl)), ('n', L.ZERO), ('n', hl))))
            elif e.entails_eq(st, L.sub(L.add(w[2][1], w[4][1]), R)):
                fs = [p for p, x in self.ints(st.mem[SELF[1]], ()) if e.entails_eq(st, L.sub(x, w[4][1]))]
                t[2][0] = fs if t[2][0] is None else [p for p in t[2][0] if p in fs]
        if ct[0] in ('empty', 'seq') and e.N(st, clen(v)) == L.ZERO:
            t = self.tmpl.get(path)
            if t and t[0] == 'seq':
                g = st.mon.get({'encq': 'pop', 'chan': 'enc', 'dec': 'del'}.get(t[1][0]))
                if g and g[0] == 'n':
                    v = with_(v, content=('seq', t[1], g, t[2], None))
            elif t and t[0] == 'all':
                v = with_(v, content=t)
        elif ct == ('bytes', 'junk'):
            t = self.tmpl.get(path)
            if t and t[0] == 'win':
                z = ('n', L.ZERO)
                v = with_(v, content=('bytes', ('win', t[1], z, z, z)))
        return v


def anchors(prog):
    return find_ctor(prog, CONN) is not None and find_trait(prog, CONN, 'Future', 'poll') is not None


def analyse(prog, want=None, max_steps=400000):
    mon = ConnMon(want)
    models = ConnModels()
    models.mon = mon
    e = Engine(prog, models, [mon], max_steps)
    new = find_ctor(prog, CONN)
    poll = find_trait(prog, CONN, 'Future', 'poll')
    if new is None or poll is None:
        raise Exception("Connection::new / Connection::poll not found")
    st = St()
    mon.init(e, st)
    args = []
    sub = {}
    ints = []
    for i in range(1, new.argc + 1):
        t = new.locals[i]
        v = e.fresh(st, t)
        if t == ('int', 'usize'):
            ints.append((i, v))
        if v[0] == 'y' and t[0] == 'adt' and t[1].startswith('tokio::sync::mpsc'):
            st.prov[v[1]] = ('rx', 'mpsc')
            st.child[(v[1], 'cnt')] = ('n', L.ZERO)
        if v[0] == 'y' and t[0] == 'alias' and 'Deserializer' in t[1]:
            st.child[(v[1], 'decn')] = ('n', L.ZERO)
        args.append(v)
    names = {l: n for l, n in getattr(new, 'names', {}).items()} if isinstance(new.names, dict) else {}
    lim = {}
    for i, v in ints:
        nm = argname(new, i)
        if 'buffer' in nm or 'length' in nm:
            lim['len'] = v
        elif 'queue' in nm or 'message' in nm:
            lim['q'] = v
    if len(ints) == 2 and len(lim) != 2:
        lim = {'len': ints[0][1], 'q': ints[1][1]}
    # configured limits are positive
    for k in lim.values():
        st.cons = st.cons + (L.addc(k[1], -1),)
    st.mon['lim'] = ('lims', lim.get('len', U), lim.get('q', U))
    e.push(st, new, args, None, sub)
    exits = e.run(st)
    work = []
    for s, v in exits:
        s.mem[SELF[1]] = v
        work.append(s)
    return e, mon, poll, work, lim


def argname(body, i):
    n = body.names
    try:
        if isinstance(n, dict):
            return n.get(i, '')
        for x in n:
            if x[0] == i or (isinstance(x[0], (tuple, list)) and x[0][0] == i):
                return x[1]
    except Exception:
        pass
    return ''


def run(prog, want=None, max_steps=400000):
    e, mon, poll, work, lim = analyse(prog, want, max_steps)
    rounds = 0
    while work:
        got = {}
        for st in work:
            mon.entry(e, st)
            r = e.merge(st, ('poll-entry',), True)
            if r is not None:
                got[r[:2]] = r[2]
        work = []
        start = []
        for st in got.values():
            rounds += 1
            st.fr = ()
            e.push(st, poll, [('r', SELF, 'mut'), M.ctx_ref(e, st)], None, {})
            start.append(st)
        if not start:
            break
        for s, v in e.run(start):
            mon.exit(e, s, v, poll.sp)
            if v[0] == 's' and v[2] == 1:
                work.append(s)
    return e, mon, rounds
