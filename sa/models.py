"""Models of the functions the analysed code calls but does not define: containers, iterators,
smart pointers, channels, sockets, wakers.  Each model gives the abstract result(s) and emits the
events the property automata listen to."""
import lin as L
from eng import U, MOVED, TRUE, FALSE, Frame, SFrame, UNKNOWN
from ir import subst, tystr

OPTION, RESULT, POLL = 'core::option::Option', 'core::result::Result', 'core::task::poll::Poll'
TABLE = {}
PREFIX = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def adt(i, *a):
    return ('adt', i, tuple(a))


def S(ty, var, *fs):
    return ('s', ty, var, None, tuple(enumerate(fs)))


def some(v, ty=None):
    return S(ty if ty and ty[1] == OPTION else adt(OPTION), 1, v)


def none(ty=None):
    return S(ty if ty and ty[1] == OPTION else adt(OPTION), 0)


def ok(v, ty=None):
    return S(ty if ty and ty[1] == RESULT else adt(RESULT), 0, v)


def err(v, ty=None):
    return S(ty if ty and ty[1] == RESULT else adt(RESULT), 1, v)


def ready(v, ty=None):
    return S(ty if ty and ty[1] == POLL else adt(POLL), 0, v)


def pending(ty=None):
    return S(ty if ty and ty[1] == POLL else adt(POLL), 1)


def targ(ty, i):
    try:
        return ty[2][i]
    except (IndexError, TypeError):
        return ('?',)


class C:
    """one call"""
    __slots__ = ("e", "st", "f", "a", "dest", "ty", "sp", "div", "name")

    def __init__(self, e, st, f, a, dest, ty, sp, div):
        self.e, self.st, self.f, self.a, self.dest, self.ty, self.sp, self.div = e, st, f, a, dest, ty, sp, div
        self.name = f[2]

    def fin(self, v, st=None):
        return self.e.finish(st or self.st, self.dest, v, self.div)

    def many(self, outs):
        r = []
        for s, v in outs:
            r += self.e.finish(s, self.dest, v, self.div)
        return r

    def emit(self, ev, st=None, **kw):
        self.e.emit(st or self.st, ev, span=self.sp, **kw)

    def deref(self, v, st=None):
        return deref(self.e, st or self.st, v)

    def put(self, r, v, st=None):
        self.e.store(st or self.st, r[1], v)

    def at(self, i, st=None):
        """the value arg i refers to (refs followed once)"""
        return deref(self.e, st or self.st, self.a[i])


def deref(e, st, v):
    if v[0] == 'r':
        return e.load(st, v[1])
    return v


def strip_refs(e, st, v):
    """follow references to references; returns (ref, value)"""
    ref = v
    while True:
        if v[0] == 'r':
            ref = v
            v = e.load(st, v[1])
        else:
            return ref, v


def num(v):
    return v[0] == 'n'


# ---------------------------------------------------------------- containers
def cont(kind, n=L.ZERO, cap=None, content=('empty',)):
    return ('c', kind, ('n', n), ('n', cap) if cap is not None else None, content)


def clen(c):
    return c[2][1]


def with_(c, n=None, content=None, cap='keep'):
    return ('c', c[1], ('n', n) if n is not None else c[2], c[3] if cap == 'keep' else cap,
            content if content is not None else c[4])


def empty_content(c):
    return ('empty',)


def is_bytes(c):
    return c[4][0] in ('bytes',)


def classify(e, st, v):
    """(stream, idx) for values that are members of an ordered stream, or ('tmpl', t)"""
    if v[0] == 'y':
        p = st.prov.get(v[1])
        if p and p[0] == 'item':
            return ('idx', p[1], p[2][1], None)
    if v[0] == 'c' and v[4][0] == 'bytes' and isinstance(v[4][1], tuple) and v[4][1][0] == 'enc':
        enc = v[4][1]
        return ('idx', ('encq', enc[1]), enc[2][1], enc[3])
    if v[0] == 'c' and v[1] == 'vec' and e.entails_eq(st, clen(v)):
        return ('tmpl', 'emptybuf')
    if v[0] == 'ios':
        sl = v[1]
        loc = sl[1]
        if loc[2] and loc[2][-1][0] == 'e':
            el = e.load(st, loc)
            whole = el[0] == 'c' and e.entails_eq(st, sl[2][1]) and whole_hi(e, st, sl, el)
            if whole:
                q = ('loc', loc[1], loc[2][:-1])
                return ('idx', ('io', q), loc[2][-1][1][1], None)
    return ('unk',)


def whole_hi(e, st, sl, el):
    return len(sl) > 4 and 'w' in sl[4] or e.entails_eq(st, L.sub(sl[3][1], clen(el)))


def mk_item(e, st, stream, idx, elty=('?',)):
    """the element with index idx of a stream"""
    if stream[0] == 'encq':
        n = e.fresh_int(st)
        return ('c', 'vec', n, None, ('bytes', ('enc', stream[1], ('n', idx), 'tail')))
    if stream[0] == 'io':
        return ('ios', ('sl', ('loc', stream[1][1], stream[1][2] + (('e', ('n', idx)),)), ('n', L.ZERO), e.fresh_int(st), 'w'))
    y = e.opaque(elty)
    st.prov[y[1]] = ('item', stream, ('n', idx))
    return y


def elty_of(c, content):
    return content[5] if len(content) > 5 else ('?',)


def take(e, st, c, end):
    """remove an element at 'front' or 'back'; c has len >= 1.  returns (elem, c')"""
    n = L.addc(clen(c), -1)
    ct = c[4]
    if ct[0] == 'seq':
        _, stream, lo, orient, front = ct[:5]
        lo = lo[1]
        oldest = (orient == '+') == (end == 'front')
        if oldest:
            if end == 'front' and front is not None:
                v = front
            else:
                v = mk_item(e, st, stream, lo)
            nlo = L.addc(lo, 1)
            return v, with_(c, n, ('seq', stream, ('n', nlo), orient, None))
        v = mk_item(e, st, stream, L.add(lo, n))
        return v, with_(c, n, ('seq', stream, ('n', lo), orient, front))
    if ct[0] == 'all' and ct[1] == 'emptybuf':
        return cont('vec', L.ZERO, None, ('bytes', 'junk')), with_(c, n)
    if ct[0] == 'list':
        xs = ct[1]
        if xs:
            if end == 'front':
                return xs[0], with_(c, n, ('list', xs[1:]))
            return xs[-1], with_(c, n, ('list', xs[:-1]))
    if ct[0] == 'map':
        lose(st, ct)
        return None, with_(c, n, ('unk',))
    if ct[0] == 'tmplv':
        return clone_tmpl(e, st, ct[1]), with_(c, n)
    return None, with_(c, n)


def clone_tmpl(e, st, t):
    return t


def lose(st, v):
    """v goes where its identity is not followed: with the tracked completion inside, nothing on this path can be judged"""
    t = st.mon.get('tok')
    if t and t[0] == 'y' and has(v, t[1]):
        st.flags = st.flags | {UNKNOWN}


def has(v, y):
    if not isinstance(v, tuple):
        return False
    if len(v) > 1 and v[0] == 'y' and v[1] == y:
        return True
    return any(has(x, y) for x in v)


def put(e, st, c, v, end):
    n = L.addc(clen(c), 1)
    ct = c[4]
    cap = grow_cap(e, st, c, n)
    cl = classify(e, st, v)
    empty = e.entails_eq(st, clen(c)) or ct[0] == 'empty'
    if cl[0] == 'idx':
        _, stream, idx, whole = cl
        if empty:
            return with_(c, n, ('seq', stream, ('n', idx), '+', v if end == 'front' and whole == 'tail' else None), cap)
        if ct[0] == 'seq' and ct[1] == stream:
            lo, orient, front = ct[2][1], ct[3], ct[4]
            one = e.entails_eq(st, L.addc(clen(c), -1))
            for o in ([orient, '-' if orient == '+' else '+'] if one else [orient]):
                grow_hi = (o == '+') == (end == 'back')
                if grow_hi and e.entails_eq(st, L.sub(idx, L.add(lo, clen(c)))) and whole != 'tail':
                    return with_(c, n, ('seq', stream, ('n', lo), o, front if o == orient else None), cap)
                if not grow_hi and e.entails_eq(st, L.sub(idx, L.addc(lo, -1))):
                    return with_(c, n, ('seq', stream, ('n', idx), o, v if (end == 'front' and stream[0] == 'encq') else None), cap)
        e.emit(st, "disorder", c=c, v=v, why=f"element {stream[0]} pushed to the {end} out of sequence")
        return with_(c, n, ('mix', stream), cap)
    if cl[0] == 'tmpl' and c[1] in ('vec', 'deque') and (empty or ct == ('all', 'emptybuf')):
        return with_(c, n, ('all', 'emptybuf'), cap)
    if ct[0] == 'seq':
        e.emit(st, "disorder", c=c, v=v, why="foreign element pushed among stream elements")
        return with_(c, n, ('mix', ct[1]), cap)
    lose(st, v)
    if ct[0] == 'map':
        lose(st, ct)
    if ct[0] == 'mix':
        return with_(c, n, None, cap)
    return with_(c, n, ('unk',), cap)


def grow_cap(e, st, c, n):
    if c[3] is None:
        return None
    if e.entails_ge(st, L.sub(c[3][1], n)):
        return c[3]
    k = e.fresh_int(st)
    st.cons = st.cons + (L.sub(k[1], n),)
    return k


def get_cap(e, st, loc, c):
    if c[3] is None:
        k = e.fresh_int(st)
        e.assume_ge(st, L.sub(k[1], clen(c)))
        c = with_(c, cap=k)
        e.store(st, loc, c)
    return c


def elem_load(e, st, c, ix):
    """value of element ix (an 'n' value, index from the front)"""
    ct = c[4]
    if ix[0] != 'n':
        return e.opaque(('?',))
    if ct[0] == 'seq':
        _, stream, lo, orient, front = ct[:5]
        if front is not None and orient == '+' and e.entails_eq(st, ix[1]):
            return front
        if orient == '+':
            idx = L.add(lo[1], ix[1])
        else:
            idx = L.sub(L.addc(L.add(lo[1], clen(c)), -1), ix[1])
        return mk_item(e, st, stream, idx)
    if ct[0] == 'list':
        k = e.N(st, ix[1])
        if not k[1] and 0 <= k[0] < len(ct[1]):
            return ct[1][k[0]]
    if ct[0] == 'bytes':
        return e.fresh_int(st, "u8")
    if ct[0] == 'all' and ct[1] == 'emptybuf':
        return cont('vec', L.ZERO, None, ('bytes', 'junk'))
    return e.opaque(('?',))


def elem_store(e, st, c, ix, v):
    ct = c[4]
    if ct[0] == 'bytes':
        return with_(c, content=('bytes', 'junk'))
    if ct[0] == 'list':
        k = e.N(st, ix[1]) if ix[0] == 'n' else ((0, ((0, 1),)))
        if not k[1] and 0 <= k[0] < len(ct[1]):
            xs = list(ct[1])
            xs[k[0]] = v
            return with_(c, content=('list', tuple(xs)))
    if ct[0] == 'seq' and ix[0] == 'n':
        old = elem_load(e, st, c, ix)
        if ct[3] == '+' and e.entails_eq(st, ix[1]) and v[0] == 'c' and ct[1][0] == 'encq':
            cl = classify(e, st, v)
            if cl[0] == 'idx' and cl[1] == ct[1] and e.entails_eq(st, L.sub(cl[2], ct[2][1])):
                e.emit(st, "front_resized", stream=ct[1], old=old, new=v)
                return with_(c, content=ct[:4] + (v,))
        if v == old:
            return c
        if v[0] == 'm':
            return c
        e.emit(st, "disorder", c=c, v=v, why="element overwritten in place")
        return with_(c, content=('mix', ct[1]))
    return c


class Models:
    def __init__(self):
        self.ext_hooks = []
        self.pure_ext = {}

    # -------- values
    def fresh_adt(self, e, st, ty):
        n = ty[1]
        if n == 'alloc::vec::Vec':
            ln = e.fresh_int(st)
            el = targ(ty, 0)
            return ('c', 'vec', ln, None, ('bytes', 'junk') if el == ('int', 'u8') else ('unk',))
        if n == 'alloc::collections::vec_deque::VecDeque':
            return ('c', 'deque', e.fresh_int(st), None, ('unk',))
        if n in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap',
                 'std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet'):
            return ('c', 'map', e.fresh_int(st), None, ('map', ()))
        if n == 'alloc::string::String':
            return ('c', 'str', e.fresh_int(st), None, ('bytes', 'junk'))
        if n in ('alloc::sync::Arc', 'alloc::rcs::arc::Arc'):
            c = e.newcell(st, e.fresh(st, targ(ty, 0)))
            return ('r', ('loc', c, ()), 'arc')
        if n in ('core::marker::PhantomData',):
            return U
        return None

    def simplify(self, e, st, key, widen):
        """weaken st before a merge"""

    own_atomics = False      # do atomics keep their value between two accesses?

    def poll_hook(self, c, r, v):
        """a future or stream that is not local is polled"""
        return NotImplemented

    def born(self, e, st, x):
        """split on facts about an item an iterator just produced"""
        return [st]

    def lock_contents(self, c, r, v, ty):
        """[(state, ref to the protected value)]; by default anything may have happened since the last lock"""
        cell = c.e.newcell(c.st, c.e.fresh(c.st, ty) if ty else c.e.opaque(('?',)))
        return [(c.st, ('r', ('loc', cell, ()), 'mut'))]

    def child_prov(self, e, st, y, step, c):
        return c

    def elem_load(self, e, st, c, ix):
        return elem_load(e, st, c, ix)

    def elem_store(self, e, st, c, ix, v):
        return elem_store(e, st, c, ix, v)

    def mapval_load(self, e, st, m, k):
        from m_std import map_lookup
        x = map_lookup(e, st, m, k)
        if x and x[0] == 'has':
            return x[1]
        return e.opaque(('?',))

    def mapval_store(self, e, st, m, k, v):
        from m_std import map_set
        return map_set(e, st, m, k, 'has', v, m[2])

    def empty_content(self, c):
        return empty_content(c)

    # -------- calls
    def is_abstract(self, e, fid):
        return False

    def call(self, e, st, f, args, dest, dty, sp, diverges):
        sn = f[2]
        c = C(e, st, f, args, dest, dty, sp, diverges)
        h = TABLE.get(sn)
        if h is None and f[1] in TABLE:
            h = TABLE[f[1]]
        if h is None and f[5]:
            h = TABLE.get(f[5])
        if h is not None:
            r = h(c)
            if r is not NotImplemented:
                return r
        for p, h in PREFIX:
            if sn.startswith(p):
                r = h(c)
                if r is not NotImplemented:
                    return r
        # a variant or tuple struct used as a function
        if str(f[1]).endswith('::{constructor#0}'):
            path = f[1].split('::')[:-1]
            for name, var in (('::'.join(path), None), ('::'.join(path[:-1]), path[-1])):
                a = e.prog.adts.get(name)
                if a is None or (a["k"] == "enum") != (var is not None):
                    continue
                ty = dty if dty and dty[0] == 'adt' and dty[1] == name else ('adt', name, tuple(f[3]))
                i = 0 if var is None else next((i for i, v in enumerate(a["v"]) if v[0] == var), None)
                if i is not None:
                    return e.finish(st, dest, ('s', ty, i, None, tuple(enumerate(args))), diverges)
        # trait method on a value whose type is known: dispatch to the local impl
        if f[6] and not (f[4] and f[4] in e.prog.bodies):
            b = self.dyn_impl(e, st, f, args)
            if b is not None:
                bod, selfty, nargs = b
                env = {}
                from eng import unify
                if bod.self is not None:
                    unify(bod.self, selfty, env)
                e.push(st, bod, nargs, dest, env, sp)
                return [st]
        return None

    def dyn_impl(self, e, st, f, args):
        if not args:
            return None
        name = f[2].split('::')[-1]
        tr = f[6]
        a0 = args[0]
        ref, v = strip_refs(e, st, a0)
        ty = None
        if v[0] in ('y',):
            ty = v[2]
        elif v[0] == 's':
            ty = v[1]
        if ty is None or ty[0] != 'adt':
            return None
        for im in e.prog.impls:
            if im["self"][0] == 'adt' and im["self"][1] == ty[1] and trait_eq(im["tr"], tr):
                bid = im["items"].get(("fn", name))
                if bid and bid in e.prog.bodies:
                    bod = e.prog.bodies[bid]
                    na = list(args)
                    # the callee wants &self / self as declared
                    want_ref = bod.locals[1][0] == 'ref' or (bod.locals[1][0] == 'adt' and bod.locals[1][1] == 'core::pin::Pin')
                    na[0] = ref if want_ref and ref[0] == 'r' else (v if not want_ref else a0)
                    return bod, ty, na
        return None

    def call_value(self, e, st, f, args, dest, dty, sp):
        """call a closure value (or a reference to one) with an argument list"""
        ref, v = strip_refs(e, st, f)
        if v[0] == 'fn':
            return e.invoke(st, v, args, dest, dty, sp)
        if v[0] == 's' and v[1][0] == 'closure':
            b = e.prog.bodies.get(v[1][1])
            if b is not None:
                sub = dict(v[1][2]) if len(v[1]) > 2 else {}
                selfty = b.locals[1]
                if selfty[0] == 'ref':
                    if f[0] == 'r':
                        a0 = ref
                    else:
                        cell = e.newcell(st, v)
                        a0 = ('r', ('loc', cell, ()), 'mut')
                else:
                    a0 = v
                e.push(st, b, [a0] + list(args), dest, sub, sp)
                return [st]
        return self.external(e, st, ('fn', '?closure', '?closure', (), None, None, None), [f] + list(args), dest, dty, sp, False)

    def external(self, e, st, f, args, dest, dty, sp, diverges):
        sn = f[2]
        if diverges:
            e.emit(st, "panic", kind="call:" + sn, span=sp, ops=[], d=len(st.fr) - 1)
            return []
        e.stats["ext"][sn] = e.stats["ext"].get(sn, 0) + 1
        c = C(e, st, f, args, dest, dty, sp, diverges)
        for h in self.ext_hooks:
            r = h(c)
            if r is not None:
                return r
        e.stats["unmodelled"][sn] = e.stats["unmodelled"].get(sn, 0) + 1
        e.emit(st, "ext", name=sn, fid=f[1], args=args, span=sp)
        v = None
        if all(harmless(e, st, a) for a in args):
            v = e.fresh(st, dty)
            if v[0] == 'y':
                st.prov.setdefault(v[1], ('free',))
        else:
            st.flags = st.flags | {UNKNOWN}
            for a in args:
                havoc_ref(e, st, a)
        return e.finish(st, dest, e.fresh(st, dty) if v is None else v, diverges)

    # -------- coroutines
    def on_yield(self, e, st, d, t):
        """a suspended await: either resumed later, or the whole future is dropped here"""
        out = []
        fr = st.fr[d]
        e.emit(st, "suspend", span=t["sp"])
        if 'cancelled' not in st.flags:
            s = st.copy()
            e.emit(s, "resume", span=t["sp"])
            loc = e.place(s, d, t["ra"])
            e.store(s, loc, ctx_ref(e, s))
            e.setbb(s, t["t"])
            out.append(s)
        if t.get("dr") is not None:
            s = st
            s.flags = s.flags | {'cancelled'}
            s.log(f"{t['sp']} future dropped while suspended")
            e.setbb(s, t["dr"])
            out.append(s)
        else:
            s = st
            s.flags = s.flags | {'cancelled'}
            out += self.on_codrop(e, s, d)
        return out

    def on_codrop(self, e, st, d):
        # the coroutine's locals are gone; its poller sees Pending and is itself being dropped
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == d]:
            del st.mem[k]
        f = st.fr[d]
        st.fr = st.fr[:-1]
        if not st.fr:
            e.exits.append((st, ('k', 'cancelled')))
            return []
        if isinstance(st.fr[-1], SFrame):
            return self.sresume(e, st, pending())
        if f.dest is not None:
            e.store(st, f.dest, pending())
        return [st]

    # -------- drops
    def start_drop(self, e, st, v, sp):
        st.fr = st.fr + (SFrame('drop', 1, (('q', v),), None, sp),)
        return [st]

    def sloop(self, f):
        return f.kind in LOOPK

    def sstep(self, e, st):
        f = st.fr[-1]
        return SK[f.kind](self, e, st, f, None)

    def sresume(self, e, st, v):
        f = st.fr[-1]
        return SK[f.kind](self, e, st, f, v)


def harmless(e, st, a, n=0):
    """nothing the analysis follows can be reached through this argument"""
    if a[0] in ('k', 'u', 'm', 'fn') or (a[0] == 'n' and not a[1][1]) or (a[0] == 'b' and isinstance(a[1], bool)):
        return True
    if a[0] == 'y':
        return st.prov.get(a[1]) == ('free',)
    if a[0] == 'r' and n < 4:
        return harmless(e, st, e.load(st, a[1]), n + 1)
    if a[0] == 's' and n < 4:
        return all(harmless(e, st, x, n + 1) for _, x in a[4]) and (a[3] is None or harmless(e, st, a[3], n + 1))
    return False


def havoc_ref(e, st, a):
    if a[0] == 'r' and a[2] == 'mut':
        x = e.load(st, a[1])
        if x[0] in ('m', 'u'):
            return
        e.emit(st, "havoc", loc=a[1], old=x)
        if x[0] == 'c':
            n = e.fresh_int(st)
            e.store(st, a[1], ('c', x[1], n, None, ('unk',) if x[4][0] != 'bytes' else ('bytes', 'junk')))
        elif x[0] == 'n':
            e.store(st, a[1], e.fresh_int(st))
        elif x[0] == 'b':
            e.store(st, a[1], e.fresh(st, ('bool',)))
        elif x[0] == 's' and x[1][0] in ('adt', 'tuple'):
            e.store(st, a[1], e.opaque(x[1]))
        elif x[0] == 'it':
            e.store(st, a[1], e.opaque(('?',)))
    elif a[0] == 'sl':
        x = e.load(st, a[1])
        # a shared slice cannot be written through; mutable ones come from index_mut/as_mut_slice
        if len(a) > 4 and 'm' in a[4] and x[0] == 'c':
            e.store(st, a[1], with_(x, content=('bytes', 'junk') if x[4][0] == 'bytes' else ('unk',)))


def trait_eq(a, b):
    if a == b:
        return True
    return a.split('::')[-1] == (b or '').split('::')[-1]


# ---------------------------------------------------------------- synthetic frames
SK = {}
LOOPK = set()


def sframe(kind, loop=False):
    def deco(f):
        SK[kind] = f
        if loop:
            LOOPK.add(kind)
        return f
    return deco


def spush(st, kind, pc, data, dest=None, sp=None):
    st.fr = st.fr + (SFrame(kind, pc, data, dest, sp),)


def sset(st, pc, data):
    f = st.fr[-1]
    st.fr = st.fr[:-1] + (SFrame(f.kind, pc, data, f.dest, f.site),)


def sret(m, e, st, v):
    """return v from the top synthetic frame"""
    return e.ret(st, v)


@sframe('drop')
def s_drop(m, e, st, f, v):
    """data: queue of ('q', value) still to drop, ('fields', cell)"""
    q = list(f.data)
    if not q:
        # pop silently
        d = len(st.fr) - 1
        st.mem.pop(('S', d), None)
        st.fr = st.fr[:-1]
        if st.fr and isinstance(st.fr[-1], SFrame):
            return m.sresume(e, st, U)
        if not st.fr:
            e.exits.append((st, U))
            return []
        return [st]
    h = q.pop(0)
    d = len(st.fr) - 1
    if h[0] == 'fields':
        x = st.mem.pop(('S', d), MOVED)
        q = [('q', y) for y in fields_of(e, st, x)] + q
        sset(st, 1, tuple(q))
        return [st]
    x = h[1]
    t = x[0]
    if t in ('m', 'n', 'b', 'u', 'k', 'fn', 'sl', 'disc', 'ios'):
        sset(st, 1, tuple(q))
        return [st]
    if t == 'r':
        if x[2] == 'arc':
            e.emit(st, "drop", v=x, span=f.site)
        if x[2] == 'box':
            q.insert(0, ('q', e.load(st, x[1])))
        sset(st, 1, tuple(q))
        return [st]
    e.emit(st, "drop", v=x, span=f.site)
    ty = x[1] if t == 's' else (x[2] if t == 'y' else None)
    if ty and ty[0] == 'adt':
        a = e.prog.adts.get(ty[1])
        if a and a["dtor"] and a["dtor"] in e.prog.bodies:
            b = e.prog.bodies[a["dtor"]]
            st.mem[('S', d)] = x
            sset(st, 1, (('fields', 0),) + tuple(q))
            env = {}
            from eng import unify
            if b.self is not None:
                unify(b.self, ty, env)
            e.push(st, b, [('r', ('loc', ('S', d), ()), 'mut')], None, env, f.site)
            return [st]
    q = [('q', y) for y in fields_of(e, st, x)] + q
    sset(st, 1, tuple(q))
    return [st]


def fields_of(e, st, x):
    if x[0] == 's':
        out = [v for _, v in x[4]]
        if x[3] is not None and x[3][0] == 'y':
            have = {i for i, _ in x[4]}
            out += [v for i, v in enumerate_fields(e, st, x[3], x[2]) if i not in have]
        return out
    if x[0] == 'y':
        ty = x[2]
        if ty[0] == 'adt':
            a = e.prog.adts.get(ty[1])
            if a and a["local"]:
                if a["k"] == 'struct':
                    return [v for _, v in enumerate_fields(e, st, x, 0)]
                cur = st.vf.get(x[1])
                if isinstance(cur, frozenset) and len(cur) == 1:
                    return [v for _, v in enumerate_fields(e, st, x, next(iter(cur)))]
            elif a and ty[1] in (OPTION, RESULT, POLL):
                cur = st.vf.get(x[1])
                if isinstance(cur, frozenset) and len(cur) == 1:
                    return [v for _, v in enumerate_fields(e, st, x, next(iter(cur)))]
        return []
    if x[0] == 'c' and x[4][0] == 'list':
        return list(x[4][1])
    if x[0] == 'c' and x[4][0] == 'map':
        return [v for _, s, v in x[4][1] if s == 'has']
    if x[0] == 'it' and x[1] == 'mapown':
        return [v for _, s, v in x[6][1] if s == 'has'] if x[6][0] == 'map' else []
    if x[0] == 'it':
        return [y for y in x if isinstance(y, tuple) and y and y[0] in ('c', 'it', 's', 'y')]
    return []


def enumerate_fields(e, st, y, var):
    a = e.prog.adts.get(y[2][1]) if y[2][0] == 'adt' else None
    if not a:
        return []
    out = []
    for i, (_, t) in enumerate(a["v"][var][2]):
        out.append((i, e.proj(st, y, (var, i), subst(t, dict(zip(a["g"], y[2][2]))))))
    return out


def ctx_ref(e, st):
    c = ('G', 'ctx')
    if c not in st.mem:
        st.mem[c] = e.opaque(('adt', 'core::task::wake::Context', ()))
    return ('r', ('loc', c, ()), 'mut')


import m_std      # noqa: E402,F401  (registers models)
import m_iter     # noqa: E402,F401
import m_io       # noqa: E402,F401
