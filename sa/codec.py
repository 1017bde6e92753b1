"""The bundled codecs (C21, C22): prost and messagepack, against any bytes in any portions.

Ghost frame at the front of the buffer (st.mon): R bytes are available; hdr says what the length prefix is:
  none   not looked at yet        short  not complete in the bytes seen      bad   not a length prefix
  good   d bytes of prefix announcing n bytes of body
The codec libraries are modelled by what they do to a cursor over those bytes.
"""
import lin as L
import models as M
from eng import Engine, St, U, UNKNOWN
from models import Models, adt, strip_refs, clen, S, with_
from m_std import sl_len, slice_of
from rpcc import adt_id, NONE
from conn import find_trait

WIRE = ('loc', ('G', 'wire'), ())
SELF = ('loc', ('G', 'self'), ())
BUF = ('loc', ('G', 'out'), ())
TAKE = adt('std::io::Take')
DE = 'protosocket::types::DeserializeError'


def cur(e, st, v):
    """[slice, where it is stored or None, [(limit, where)]] of a cursor value: a slice, a reader of one, a Take of one"""
    place = None
    lims = []
    while True:
        if v[0] == 'r':
            place = v[1]
            v = e.load(st, place)
        elif v[0] == 's' and v[1] == TAKE:
            f = dict(v[4])
            lims.append((f[1][1], ('loc', place[1], place[2] + ((0, 1),)) if place else None))
            place = ('loc', place[1], place[2] + ((0, 0),)) if place else None
            v = f[0]
        elif v[0] == 'sl':
            return v, place, lims
        elif v[0] == 'c':
            return ('sl', place, ('n', L.ZERO), v[2], 'w'), None, lims
        else:
            return None


def avail(e, st, cu):
    """[(state, bytes readable)]"""
    sl, place, lims = cu
    outs = [(st, sl_len(sl))]
    for l, _ in lims:
        nx = []
        for s, a in outs:
            for t in e.assume(s.copy(), ('ge', ('n', L.sub(l, a))), True):
                nx.append((t, a))
            for t in e.assume(s, ('ge', ('n', L.sub(l, a))), False):
                nx.append((t, l))
        outs = nx
    return outs


def consume(e, st, cu, k):
    sl, place, lims = cu
    if place is not None:
        e.store(st, place, ('sl', sl[1], ('n', L.add(sl[2][1], k)), sl[3], ''))
    for l, w in lims:
        if w is not None:
            e.store(st, w, ('n', L.sub(l, k)))


class CodecModels(Models):
    def __init__(self, mon):
        super().__init__()
        self.m = mon

    def call(self, e, st, f, args, dest, dty, sp, diverges):
        c = M.C(e, st, f, args, dest, dty, sp, diverges)
        n = f[2]
        parts = n.split('::')
        h = None
        if parts[0] in ('bytes', 'rmp', 'rmp_serde', 'prost') or n.startswith('std::io::Read::') or n.startswith('std::io::Take::') or n.startswith('std::io::Write::'):
            h = getattr(self, 'f_' + parts[-1], None)
            if h is None and parts[0] == 'rmp' and 'encode' in parts and parts[-1].startswith('write_'):
                h = self.f_write_any
            if h is None and parts[0] == 'rmp' and 'decode' in parts and parts[-1].startswith('read_'):
                h = self.f_read_any
        if h is not None:
            r = h(c)
            if r is not None and r is not NotImplemented:
                return r
        if h is None and parts[0] in ('bytes', 'rmp', 'rmp_serde', 'prost'):
            self.m.unknown(e, st, n)
        return super().call(e, st, f, args, dest, dty, sp, diverges)

    # ---- cursors
    def f_remaining(self, c):
        cu = cur(c.e, c.st, c.a[0])
        return c.many([(s, ('n', a)) for s, a in avail(c.e, c.st, cu)]) if cu else None

    def f_has_remaining(self, c):
        cu = cur(c.e, c.st, c.a[0])
        return c.many([(s, ('b', ('ge', ('n', L.addc(a, -1))))) for s, a in avail(c.e, c.st, cu)]) if cu else None

    def f_chunk(self, c):
        cu = cur(c.e, c.st, c.a[0])
        if not cu:
            return None
        sl = cu[0]
        return c.many([(s, ('sl', sl[1], sl[2], ('n', L.add(sl[2][1], a)), 'w' if a == sl_len(sl) else '')) for s, a in avail(c.e, c.st, cu)])

    def f_reader(self, c):
        return c.fin(c.a[0])

    f_into_inner = f_by_ref = f_get_ref = f_get_mut = f_reader

    def f_take(self, c):
        if c.a[1][0] != 'n':
            return None
        return c.fin(S(TAKE, 0, c.a[0], c.a[1]))

    def f_into_inner(self, c):
        v = c.a[0]
        if v[0] == 's' and v[1] == TAKE:
            return c.fin(dict(v[4])[0])
        return c.fin(v)

    def f_advance(self, c):
        cu = cur(c.e, c.st, c.a[0])
        if not cu or c.a[1][0] != 'n':
            return None
        out = []
        for s, a in avail(c.e, c.st, cu):
            k = c.a[1][1]
            if not c.e.entails_ge(s, L.sub(a, k)):
                self.m.panic(c.e, s, 'advance past the end', c.sp)
            if c.e.assume_ge(s, L.sub(a, k)):
                consume(c.e, s, cu, k)
                out.append((s, U))
        return c.many(out)

    def f_read(self, c):
        cu = cur(c.e, c.st, c.a[0])
        dst = slice_of(c.e, c.st, c.a[1], True) if c.a[1][0] in ('r', 'sl') else None
        if not cu or dst is None:
            return None
        out = []
        w = sl_len(dst)
        for s, a in avail(c.e, c.st, cu):
            for t in c.e.assume(s.copy(), ('ge', ('n', L.sub(a, w))), True):
                consume(c.e, t, cu, w)
                out.append((t, M.ok(('n', w), c.ty)))
            for t in c.e.assume(s, ('ge', ('n', L.sub(a, w))), False):
                consume(c.e, t, cu, a)
                out.append((t, M.ok(('n', a), c.ty)))
        return c.many(out)

    def f_read_exact(self, c):
        cu = cur(c.e, c.st, c.a[0])
        dst = slice_of(c.e, c.st, c.a[1], True) if c.a[1][0] in ('r', 'sl') else None
        if not cu or dst is None:
            return None
        out = []
        w = sl_len(dst)
        for s, a in avail(c.e, c.st, cu):
            for t in c.e.assume(s.copy(), ('ge', ('n', L.sub(a, w))), True):
                consume(c.e, t, cu, w)
                out.append((t, M.ok(U, c.ty)))
            for t in c.e.assume(s, ('ge', ('n', L.sub(a, w))), False):
                out.append((t, M.err(c.e.opaque(M.targ(c.ty, 1)), c.ty)))
        return c.many(out)

    # ---- prefixes
    def header(self, c, cu, a, s, kind):
        """[(state, value lin | None)] of reading a length prefix with this cursor"""
        e, m = c.e, s.mon
        at0 = cu[0][1] == WIRE and e.entails_eq(s, cu[0][2][1])
        w = self.m.hw(kind)
        out = []
        if not at0:
            t = s.copy()
            k = e.fresh_int(t, 'u64')
            v = e.fresh_int(t, w[1])
            if e.assume_ge(t, L.addc(k[1], -1)) and e.assume_ge(t, L.sub(a, k[1])):
                consume(e, t, cu, k[1])
                out.append((t, v[1]))
            out.append((s, None))
            return out
        self.m.n('prefix')
        if m['hdr'][1] in ('none', 'good') and m['hk'] in (NONE, ('k', kind)):
            t = s.copy()
            m = t.mon
            fine = True
            if m['hdr'][1] == 'none':
                d = ('n', L.const(w[0])) if w[0] else e.fresh_int(t, 'u8')
                n = e.fresh_int(t, w[1])
                fine = e.assume_ge(t, L.addc(d[1], -1)) and e.assume_ge(t, L.addc(L.neg(d[1]), 10))
                if w[1] == 'u64':
                    fine = fine and e.assume_ge(t, L.sub(L.const(2**64 - 1), n[1]))
                m.update(hdr=('k', 'good'), n=n, d=d, hk=('k', kind))
            if fine and e.assume_ge(t, L.sub(a, m['d'][1])):
                consume(e, t, cu, m['d'][1])
                t.log(f"{c.sp} length prefix: {kind}")
                out.append((t, m['n'][1]))
            if s.mon['hdr'][1] == 'good':
                t = s.copy()
                if e.assume_ge(t, L.addc(L.sub(t.mon['d'][1], a), -1)):
                    out.append((t, None))
        if s.mon['hdr'][1] in ('none', 'short'):
            t = s.copy()
            if e.assume_ge(t, L.sub(L.const((w[0] or 10) - 1), a)):
                t.mon['hdr'] = ('k', 'short')
                t.log(f"{c.sp} length prefix: incomplete")
                out.append((t, None))
        if s.mon['hdr'][1] in ('none', 'bad'):
            t = s.copy()
            if e.assume_ge(t, L.addc(a, -(w[0] or 10))) if kind == 'varint' else e.assume_ge(t, L.addc(a, -1)):
                t.mon['hdr'] = ('k', 'bad')
                t.log(f"{c.sp} length prefix: invalid")
                out.append((t, None))
        return out

    def prefix(self, c, kind):
        cu = cur(c.e, c.st, c.a[0])
        if not cu:
            return None
        outs = []
        for s, a in avail(c.e, c.st, cu):
            for t, n in self.header(c, cu, a, s, kind):
                outs.append((t, M.ok(('n', n), c.ty) if n is not None else M.err(c.e.opaque(M.targ(c.ty, 1)), c.ty)))
        return c.many(outs)

    def f_decode_length_delimiter(self, c):
        return self.prefix(c, 'varint')

    f_decode_varint = f_decode_length_delimiter

    def f_read_u32(self, c):
        return self.prefix(c, 'u32')

    def f_read_any(self, c):
        return self.prefix(c, c.name.split('_')[-1])

    def f_length_delimiter_len(self, c):
        e, st = c.e, c.st
        k = e.fresh_int(st, 'u8')
        e.assume_ge(st, L.addc(k[1], -1))
        e.assume_ge(st, L.addc(L.neg(k[1]), 10))
        m = st.mon
        if m.get('hdr', NONE)[1] == 'good' and c.a[0][0] == 'n' and e.entails_eq(st, L.sub(c.a[0][1], m['n'][1])):
            e.assume_ge(st, L.sub(m['d'][1], k[1]))
        return c.fin(k)

    f_encoded_len_varint = f_length_delimiter_len

    # ---- bodies
    def body(self, c, exact, s, cons):
        """[(state, result)]: cons(state, k) moves the cursor"""
        e = c.e
        t = s.copy()
        y = e.opaque(M.targ(c.ty, 0))
        t.prov[y[1]] = ('body', 'exact' if exact else 'inexact')
        t.log(f"{c.sp} body decodes{'' if exact else ' (not exactly the body of the frame)'}")
        out = []
        self.m.n('body')
        if cons(t):
            t.mon['body'] = ('k', 'ok')
            out.append((t, M.ok(y, c.ty)))
        s.mon['body'] = ('k', 'bad' if exact else 'unknown')
        s.log(f"{c.sp} body does not decode")
        out.append((s, M.err(e.opaque(M.targ(c.ty, 1)), c.ty)))
        return out

    def f_decode_length_delimited(self, c):
        e = c.e
        cu = cur(e, c.st, c.a[0])
        if not cu:
            return None
        outs = []
        sl = cu[0]
        at0 = sl[1] == WIRE and e.entails_eq(c.st, sl[2][1])
        if at0:
            for s, a in avail(e, c.st, cu):
                for t, n in self.header(c, (sl, None, []), a, s, 'varint'):
                    if n is None:
                        outs.append((t, M.err(e.opaque(M.targ(c.ty, 1)), c.ty)))
                        continue
                    F = L.add(t.mon['d'][1], n)
                    for u in e.assume(t.copy(), ('ge', ('n', L.sub(a, F))), True):
                        def cons(x, F=F):
                            consume(e, x, cu, F)
                            return True
                        outs += self.body(c, True, u, cons)
                    for u in e.assume(t, ('ge', ('n', L.sub(a, F))), False):
                        u.mon['body'] = ('k', 'underflow')
                        outs.append((u, M.err(e.opaque(M.targ(c.ty, 1)), c.ty)))
            return c.many(outs)
        for s, a in avail(e, c.st, cu):
            def cons(x, a=a):
                k = e.fresh_int(x)
                if not e.assume_ge(x, L.sub(a, k[1])):
                    return False
                consume(e, x, cu, k[1])
                return True
            outs += self.body(c, False, s, cons)
        return c.many(outs)

    def exact(self, e, s, sl, a):
        m = s.mon
        return m['hdr'][1] == 'good' and sl[1] == WIRE and e.entails_eq(s, L.sub(sl[2][1], m['d'][1])) and e.entails_eq(s, L.sub(a, m['n'][1]))

    def f_decode(self, c):
        """prost: the whole cursor is one message"""
        e = c.e
        cu = cur(e, c.st, c.a[0])
        if not cu:
            return None
        outs = []
        for s, a in avail(e, c.st, cu):
            def cons(x, a=a):
                consume(e, x, cu, a)
                return True
            outs += self.body(c, self.exact(e, s, cu[0], a), s, cons)
        return c.many(outs)

    def f_from_read(self, c):
        """rmp_serde: one value at the front of the cursor"""
        e = c.e
        cu = cur(e, c.st, c.a[0])
        if not cu:
            return None
        outs = []
        for s, a in avail(e, c.st, cu):
            def cons(x, a=a):
                k = e.fresh_int(x)
                if not e.assume_ge(x, L.sub(a, k[1])):
                    return False
                consume(e, x, cu, k[1])
                return True
            outs += self.body(c, self.exact(e, s, cu[0], a), s, cons)
        return c.many(outs)

    f_from_slice = f_from_read

    # ---- encoding
    def out(self, c, i):
        """(loc, container) a writer argument appends to"""
        v = c.a[i]
        loc = None
        while v[0] == 'r':
            loc = v[1]
            v = c.e.load(c.st, loc)
        return (loc, v) if v[0] == 'c' and loc is not None else (None, v)

    def append(self, c, loc, v, k, what, val=None):
        e, st = c.e, c.st
        start = clen(v)
        end = L.add(start, k)
        cap = v[3]
        if cap is None or not e.entails_ge(st, L.sub(cap[1], end)):
            realloc = True
            cap = e.fresh_int(st)
            e.assume_ge(st, L.sub(cap[1], end))
        else:
            realloc = False
        self.m.wrote(e, st, loc, start, end, realloc)
        e.store(st, loc, ('c', v[1], ('n', end), cap, ('bytes', 'junk')))
        self.m.put(e, st, loc, what, start, k, val)

    def f_write(self, c):
        """rmp_serde::encode::write(writer, &value)"""
        if not c.name.startswith('rmp_serde'):
            return None
        return self.enc(c, 0, 'mp', c.a[1])

    def enc(self, c, i, kind, msg):
        e, st = c.e, c.st
        loc, v = self.out(c, i)
        if loc is None:
            return None
        k = e.fresh_int(st)
        e.assume_ge(st, L.sub(L.const(2**31), k[1]))
        self.append(c, loc, v, k[1], kind)
        if strip_refs(e, st, msg)[1] != st.mon['msg']:
            self.m.rep(e, st, 'C21', 'wrong message', "something other than the given message is encoded", c.sp)
        self.m.n('encoded')
        return c.fin(M.ok(U, c.ty) if c.ty[0] == 'adt' else U)

    def f_encode_length_delimited(self, c):
        return self.enc(c, 1, 'framed', c.a[0])

    def f_encode(self, c):
        return self.enc(c, 1, 'pb', c.a[0])

    f_encode_raw = f_encode

    def tovec(self, c, kind):
        e, st = c.e, c.st
        if strip_refs(e, st, c.a[0])[1] != st.mon['msg']:
            self.m.rep(e, st, 'C21', 'wrong message', "something other than the given message is encoded", c.sp)
        k = e.fresh_int(st)
        e.assume_ge(st, L.sub(L.const(2**31), k[1]))
        self.m.n('encoded')
        v = ('c', 'vec', k, None, ('bytes', ('win', ('code', ('k', kind)), ('n', L.ZERO), ('n', L.ZERO), k)))
        st.mon['tmp'] = ('tmp', ('k', kind), k)
        return c.fin(v if c.ty[0] == 'adt' and c.ty[1].endswith('Vec') else M.ok(v, c.ty))

    def f_encode_length_delimited_to_vec(self, c):
        return self.tovec(c, 'framed')

    def f_encode_to_vec(self, c):
        return self.tovec(c, 'pb')

    def f_to_vec(self, c):
        return self.tovec(c, 'mp') if c.name.startswith('rmp_serde') else None

    def f_encoded_len(self, c):
        return c.fin(c.e.fresh_int(c.st))

    def f_write_u32(self, c):
        return self.head(c, 'u32', 5)

    def f_write_any(self, c):
        return self.head(c, c.name.split('_')[-1], None)

    def head(self, c, kind, w):
        e, st = c.e, c.st
        self.m.n('header')
        res = M.ok(U, c.ty) if c.ty[0] == 'adt' and c.ty[1] == M.RESULT else c.e.fresh(st, c.ty)
        if w is None:
            k = e.fresh_int(st)
            e.assume_ge(st, L.addc(k[1], -1))
            w = k[1]
        else:
            w = L.const(w)
        loc, v = self.out(c, 0)
        if loc is not None:
            self.append(c, loc, v, w, 'head', (kind, c.a[1]))
            return c.fin(res)
        if v[0] == 'sl':
            # a window into the buffer: written in place
            if not e.entails_ge(st, L.sub(sl_len(v), w)):
                self.m.panic(e, st, 'no room for the length prefix', c.sp)
            self.m.wrote(e, st, v[1], v[2][1], L.add(v[2][1], w), False)
            self.m.put(e, st, v[1], 'head', v[2][1], w, (kind, c.a[1]))
            return c.fin(res)
        return None


class CodecMon:
    def __init__(self, kind):
        self.kind = kind
        self.count = {}

    def n(self, k):
        k = f'{self.kind}-{k}'
        self.count[k] = self.count.get(k, 0) + 1

    def rep(self, e, st, p, k, msg, span=None):
        e.report(p, f'{self.kind}: {k}', f'{self.kind}: {msg}', st, span)

    def hw(self, kind):
        return {'u32': (5, 'u32'), 'u64': (9, 'u64'), 'u16': (3, 'u16'), 'u8': (2, 'u8')}.get(kind, (None, 'u64'))

    def unknown(self, e, st, name):
        for p in ('C21', 'C22'):
            e.undecide(p, name, f'{name} is not modelled', st)

    def panic(self, e, st, what, span):
        self.rep(e, st, 'C22', 'panic ' + what, f"may panic: {what}", span)

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        self.panic(e, st, kind, span)

    def on_set_len(self, e, st, loc, c, n, ok, span):
        self.n('set_len')
        if not ok:
            self.rep(e, st, 'C22', 'set_len', "set_len is not covered by the buffer's capacity", span)

    # ---- output layout
    def wrote(self, e, st, loc, start, end, realloc):
        """bytes [start, end) of a buffer are written; what was recorded there is gone"""
        for k in ('body', 'head'):
            r = st.mon.get('o' + k, NONE)
            if r[0] == 'at' and r[1] == loc:
                lo, hi = r[3][1], L.add(r[3][1], r[4][1])
                if not (e.entails_ge(st, L.sub(start, hi)) or (not realloc and e.entails_ge(st, L.sub(lo, end)))):
                    st.mon['o' + k] = ('k', 'overwritten')

    def put(self, e, st, loc, what, start, k, val):
        if what == 'head':
            st.mon['ohead'] = ('at', loc, ('k', val[0]), ('n', start), ('n', k), val[1])
        else:
            st.mon['obody'] = ('at', loc, ('k', what), ('n', start), ('n', k))

    def on_extend(self, e, st, loc, c, sl, span):
        start, k = clen(c), sl_len(sl)
        end = L.add(start, k)
        self.wrote(e, st, loc, start, end, c[3] is None or not e.entails_ge(st, L.sub(c[3][1], end)))
        b = st.mon.get('obody', NONE)
        if b[0] == 'at' and b[1] == sl[1] and e.entails_eq(st, L.sub(sl[2][1], b[3][1])) and e.entails_eq(st, L.sub(k, b[4][1])):
            st.mon['obody'] = ('at', loc, b[2], ('n', start), b[4])
            return
        v = e.load(st, sl[1])
        if v[0] == 'c' and v[4][0] == 'bytes' and isinstance(v[4][1], tuple) and v[4][1][0] == 'win' and v[4][1][1][0] == 'code' and st.mon['tmp'][0] == 'tmp':
            if e.entails_eq(st, sl[2][1]) and e.entails_eq(st, L.sub(k, st.mon['tmp'][2][1])):
                st.mon['obody'] = ('at', loc, st.mon['tmp'][1], ('n', start), ('n', k))
                return
        st.mon['raw'] = ('k', 'yes')

    def on_grow(self, e, st, loc, c, by, span):
        st.mon['raw'] = ('k', 'yes')
        self.wrote(e, st, loc, clen(c), L.add(clen(c), by), True)

    def moved(self, st, *locs):
        if any(st.mon.get(k, NONE)[0] == 'at' and st.mon[k][1] in locs for k in ('obody', 'ohead')):
            st.mon['havoc'] = ('k', 'yes')

    def on_split(self, e, st, loc, c, k, span):
        self.moved(st, loc)

    def on_drain(self, e, st, loc, c, k, span):
        self.moved(st, loc)

    def on_append(self, e, st, loc, c, src, w, span):
        n = clen(w)
        self.on_extend(e, st, loc, c, ('sl', src, ('n', L.ZERO), ('n', n), 'r'), span)

    def on_havoc(self, e, st, loc, old, span=None):
        if loc[1] == BUF[1]:
            st.mon['havoc'] = ('k', 'yes')


def impls(prog, crate, tr, fn):
    out = []
    for im in prog.impls:
        if im["self"][0] == 'adt' and im["self"][1].startswith(crate + '::') and im["tr"].split('::')[-1] == tr:
            b = prog.bodies.get(im["items"].get(("fn", fn)))
            if b is not None:
                out.append((im["self"], b))
    return out


def decode(prog, crate, kind, max_steps=100000):
    got = impls(prog, crate, 'Deserializer', 'decode')
    if len(got) != 1:
        return None, None, f'{crate}: one Deserializer'
    ty, b = got[0]
    mon = CodecMon(kind)
    models = CodecModels(mon)
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    st.mon.update(hdr=NONE, hk=NONE, n=NONE, d=NONE, R=NONE, body=NONE, msg=NONE, tmp=NONE, raw=NONE)
    dflt = find_trait(prog, ty[1], 'Default', 'default')
    if dflt is None:
        return None, None, f'{crate}: Default for the deserializer'
    e.push(st, dflt, [], None, {})
    work = []
    for s, v in e.run(st):
        s.mem[SELF[1]] = v
        work.append(s)
    rounds = 0
    while work:
        todo = {}
        for s in work:
            s.flags = s.flags & {UNKNOWN}
            r = e.merge(s, ('entry',), True)
            if r is not None:
                todo[r[:2]] = r[2]
        work = []
        for s in todo.values():
            rounds += 1
            s.fr = ()
            R = e.fresh_int(s)
            e.assume_ge(s, L.sub(L.const(2**62), R[1]))
            if s.mon['R'][0] == 'n':
                e.assume_ge(s, L.sub(R[1], s.mon['R'][1]))
            s.mon['R'] = R
            s.mem[WIRE[1]] = ('c', 'vec', R, None, ('bytes', 'junk'))
            e.push(s, b, [('r', SELF, 'mut'), ('sl', WIRE, ('n', L.ZERO), R, 'w')], None, {})
            for t, v in e.run(s):
                work += judge(e, mon, t, v, b.sp)
    return e, mon, rounds


def judge(e, mon, t, v, sp):
    m = t.mon
    R = m['R'][1]
    hdr = m['hdr'][1]
    F = L.add(m['d'][1], m['n'][1]) if hdr == 'good' else None

    def cont(keep):
        if not keep:
            m.update(hdr=NONE, hk=NONE, n=NONE, d=NONE, R=NONE)
        m.update(body=NONE)
        t.mem.pop(WIRE[1], None)
        return [t]
    res = v
    if not (v[0] == 's' and v[1][0] == 'adt' and v[1][1] == M.RESULT):
        mon.unknown(e, t, 'the result of decode')
        return []
    x = dict(v[4])[0]
    if v[2] == 0:
        mon.n('ok')
        e.stats["obl"].add((mon.kind, 'ok', hdr))
        ln, msg = (dict(x[4])[0], dict(x[4])[1]) if x[0] == 's' else (U, U)
        p = t.prov.get(msg[1]) if msg[0] == 'y' else None
        if hdr != 'good':
            mon.rep(e, t, 'C21', 'message without a frame', "a message is produced although there is no valid length prefix", sp)
            return []
        if not p or p[0] != 'body':
            mon.rep(e, t, 'C21', 'invented message', "a message is produced that was not decoded from the buffer", sp)
        elif p[1] != 'exact':
            mon.rep(e, t, 'C21', 'beyond its frame', "a message is decoded from bytes that are not exactly those of its frame", sp)
        if not (ln[0] == 'n' and e.entails_eq(t, L.sub(ln[1], F))):
            mon.rep(e, t, 'C21', 'wrong length', "the bytes consumed by a message are not exactly those of its frame: everything after it is misread", sp)
        if not e.entails_ge(t, L.sub(R, F)):
            mon.rep(e, t, 'C21', 'consumes too much', "more bytes are consumed than were received", sp)
        return cont(False)
    er = x
    if er[0] == 's' and er[1][0] == 'adt':
        vs = e.variants(er[1])
        name = vs[er[2]][0] if vs else '?'
    else:
        name = '?'
    mon.n('err-' + name)
    e.stats["obl"].add((mon.kind, name, hdr, m['body'][1]))
    if name == 'IncompleteBuffer':
        if hdr == 'bad':
            mon.rep(e, t, 'C22', 'waits for garbage', "an invalid length prefix is taken for an incomplete one: the connection waits for bytes that cannot help", sp)
            return []
        if hdr == 'good' and not e.entails_ge(t, L.addc(L.sub(F, R), -1)):
            mon.rep(e, t, 'C21', 'whole message withheld', "a message that has been received in full is not produced", sp)
            return []
        sz = dict(er[4]).get(0, U)
        lim = F if hdr == 'good' else L.const(10)
        if not (sz[0] == 'n' and e.entails_ge(t, L.sub(lim, sz[1]))):
            mon.rep(e, t, 'C21', 'exaggerated size', "the announced size of an incomplete message is more than its frame: a connection may reject a message that fits", sp)
        return cont(hdr == 'good')
    if name == 'InvalidBuffer':
        if hdr == 'bad' or (hdr == 'good' and m['body'][1] == 'bad'):
            return []
        if hdr == 'good' and m['body'][1] == 'unknown':
            return []
        mon.rep(e, t, 'C21', 'rejects valid', "bytes that are the beginning of a valid message are rejected", sp)
        return []
    if name == 'SkipMessage':
        mon.rep(e, t, 'C21', 'skips', "a message is skipped", sp)
        return []
    mon.unknown(e, t, 'the error of decode')
    return []


def encode(prog, crate, kind, framed, max_steps=50000):
    got = impls(prog, crate, 'Serializer', 'encode')
    if len(got) != 1:
        return None, None, f'{crate}: one Serializer'
    ty, b = got[0]
    mon = CodecMon(kind)
    models = CodecModels(mon)
    e = Engine(prog, models, [mon], max_steps)
    st = St()
    st.mon.update(hdr=NONE, hk=NONE, n=NONE, d=NONE, R=NONE, body=NONE, msg=NONE, tmp=NONE, raw=NONE, obody=NONE, ohead=NONE, havoc=NONE)
    st.mem[SELF[1]] = e.fresh(st, ty)
    msg = e.fresh(st, b.locals[2])
    st.mon['msg'] = msg
    cap = e.fresh_int(st)
    st.mem[BUF[1]] = ('c', 'vec', ('n', L.ZERO), cap, ('bytes', 'junk'))
    e.push(st, b, [('r', SELF, 'mut'), msg, ('r', BUF, 'mut')], None, {})
    for t, v in e.run(st):
        m = t.mon
        out = e.load(t, BUF)
        mon.n('encode-exit')
        e.stats["obl"].add((kind, 'encode', m['obody'][0], m['ohead'][0]))
        body, head = m['obody'], m['ohead']
        if m['havoc'][1] == 'yes':
            mon.unknown(e, t, 'the layout of the encoded message')
            continue
        if body[0] != 'at' or body[1] != BUF:
            nothing = body == NONE and m['tmp'] == NONE
            empty = out[0] == 'c' and e.entails_eq(t, clen(out))
            if body == ('k', 'overwritten') or nothing or empty:
                mon.rep(e, t, 'C21', 'not encoded', "an encoded message is missing, or parts of it are overwritten", b.sp)
            else:
                mon.unknown(e, t, 'the layout of the encoded message')
            continue
        ln = clen(out)
        if framed:
            if body[2][1] == 'pb' and m['raw'][1] == 'yes':
                mon.unknown(e, t, 'the length delimiter')
                continue
            if body[2][1] != 'framed' or not e.entails_eq(t, body[3][1]):
                mon.rep(e, t, 'C21', 'no delimiter', "a message is encoded without its length delimiter", b.sp)
            if not e.entails_eq(t, L.sub(ln, body[4][1])):
                mon.rep(e, t, 'C21', 'wrong encoded length', "the encoded bytes are not exactly one frame", b.sp)
            continue
        if head[0] != 'at' or head[1] != BUF:
            if head[0] == 'at' or m['raw'][1] == 'yes' and head == NONE:
                mon.unknown(e, t, 'the length prefix')
            else:
                mon.rep(e, t, 'C21', 'no prefix', "a message is encoded without its length prefix, or the prefix is overwritten", b.sp)
            continue
        if head[2][1] != 'u32' or not e.entails_eq(t, head[3][1]):
            mon.rep(e, t, 'C21', 'wrong prefix', "the length prefix is not where or what the decoder reads", b.sp)
        if not (head[5][0] == 'n' and e.entails_eq(t, L.sub(head[5][1], body[4][1]))):
            mon.rep(e, t, 'C21', 'wrong prefix value', "the length prefix is not the length of the body", b.sp)
        if not e.entails_eq(t, L.sub(body[3][1], L.add(head[3][1], head[4][1]))) or not e.entails_eq(t, L.sub(ln, L.add(body[3][1], body[4][1]))):
            mon.rep(e, t, 'C21', 'wrong encoded length', "the encoded bytes are not exactly one frame", b.sp)
    return e, mon, 1
