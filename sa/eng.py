"""Abstract interpreter over MIR: a disjunctive (trace-partitioned) dataflow analysis.

An abstract state is a stack of program points, a store of abstract values, a set of linear
constraints over integer symbols, and the states of the property automata ("monitors").  States
meeting at one program point with the same discrete shape are merged: by inclusion at joins, by
join/widening of the numeric part at loop heads and at the boundary between two polls.  Calls to
functions of the workspace (and to the followed core combinators) are inlined; other calls go to
the models in models.py.  Nothing is executed; the result is a fixpoint.

Values are nested tuples:
  ('n', Lin)  ('b', bool|expr)  ('u',)  ('m',) moved/uninit
  ('r', ('loc', cell, path), kind)        reference/pointer (kind: 'ref','arc','raw')
  ('sl', ('loc', cell, path), ('n',lo), ('n',hi))   slice reference
  ('s', ty, variant, base, ((i, v), ...))  struct/enum/tuple/closure
  ('y', sid, ty)                           opaque symbol with lazily created children
  ('c', kind, ('n',len), ('n',cap)|None, content)   container
  ('it', ...) iterator   ('fn', name, ...) function value   ('disc', y) discriminant of an opaque enum
  ('k', text) opaque constant
"""
import heapq
import sys
import lin as L
from ir import subst, tystr, strip_generics

sys.setrecursionlimit(20000)
U = ('u',)
MOVED = ('m',)
# transparent: a pinned pointer is the pointer
UNKNOWN = 'unknown'     # flag of a state: a call without a model touched what is tracked
PINS = ('core::pin::Pin', 'core::pin::PinMacroHelper')
TRUE = ('b', True)
FALSE = ('b', False)
INTMAX = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1, "u128": 2**128 - 1}


class Frame:
    __slots__ = ("body", "bb", "dest", "subst", "co", "site", "cb")
    # co: None | 'co' (coroutine run to completion by its poller); cb: the block control came from

    def __init__(self, body, bb, dest, sub, co=None, site=None, cb=0):
        self.body, self.bb, self.dest, self.subst, self.co, self.site, self.cb = body, bb, dest, sub, co, site, cb

    def at(self, bb):
        return Frame(self.body, bb, self.dest, self.subst, self.co, self.site, self.bb)


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}


def rng(t):
    n = BITS[t]
    return (0, 2**n - 1) if t[0] == 'u' else (-2**(n - 1), 2**(n - 1) - 1)


class SFrame:
    """a synthetic frame: an iterator driver, a drop queue, ..."""
    __slots__ = ("kind", "pc", "data", "dest", "site")
    loops = False

    def __init__(self, kind, pc, data, dest=None, site=None):
        self.kind, self.pc, self.data, self.dest, self.site = kind, pc, data, dest, site


class St:
    __slots__ = ("fr", "mem", "cons", "sub", "child", "vf", "memo", "prov", "mon", "tr", "flags")

    def __init__(self):
        self.fr = ()
        self.mem = {}
        self.cons = ()
        self.sub = {}
        self.child = {}
        self.vf = {}
        self.memo = {}
        self.prov = {}
        self.mon = {}
        self.tr = None
        self.flags = frozenset()

    def copy(self):
        s = St()
        s.fr, s.mem, s.cons, s.sub = self.fr, dict(self.mem), self.cons, dict(self.sub)
        s.child, s.vf, s.memo, s.prov = dict(self.child), dict(self.vf), dict(self.memo), dict(self.prov)
        s.mon, s.tr, s.flags = dict(self.mon), self.tr, self.flags
        return s

    def log(self, text):
        self.tr = (self.tr, text)

    def trace(self, n=60):
        out = []
        t = self.tr
        while t and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Budget(Exception):
    pass


class Engine:
    made = []       # every engine of this process: what it found counts even if the analysis does not finish

    def __init__(self, prog, models, monitors=(), max_steps=400000):
        self.prog = prog
        self.models = models
        self.monitors = list(monitors)
        self.nsym = 0
        self.ncell = 0
        self.points = {}
        self.steps = 0
        self.max_steps = max_steps
        Engine.made.append(self)
        self.violations = {}
        self.undecided = {}
        self.stats = {"blocks": 0, "calls": {}, "ext": {}, "functions": set(), "merged": 0, "states": 0,
                      "loops": set(), "unmodelled": {}, "obl": set()}
        self.maxdis = 3
        self.nomodel = set()

    # ------------------------------------------------------------ reporting
    def report(self, prop, key, msg, st, span=None):
        k = (prop, key)
        if UNKNOWN in st.flags:
            # a call with unknown effect on tracked values lies on this path: no verdict
            self.undecide(prop, key, f"{msg}, unless a call that is not modelled prevents it ({', '.join(sorted(self.stats['unmodelled'])[:4])})", st)
            return
        if k not in self.violations:
            self.violations[k] = {"property": prop, "key": key, "message": msg, "span": span or self.where(st),
                                  "stack": self.stack(st), "trace": st.trace()}

    def undecide(self, prop, key, msg, st):
        k = (prop, key)
        if k not in self.undecided:
            self.undecided[k] = {"property": prop, "key": key, "message": msg, "stack": self.stack(st)}

    def where(self, st):
        for f in reversed(st.fr):
            if isinstance(f, Frame) and not f.body.ext:
                return f.site or f.body.sp
        return "?"

    def stack(self, st):
        return [f.body.id for f in st.fr if isinstance(f, Frame)]

    def fnname(self, st):
        for f in reversed(st.fr):
            if isinstance(f, Frame) and not f.body.ext:
                return f.body.id
        return "?"

    def adjust(self, st, what, v, **kw):
        """let the automata forget what they know about a value that has served its purpose"""
        for m in self.monitors:
            h = getattr(m, "adj_" + what, None)
            if h:
                v = h(self, st, v, **kw)
        return v

    def emit(self, st, ev, **kw):
        for m in self.monitors:
            h = getattr(m, "on_" + ev, None)
            if h:
                self.stats["obl"].add((ev, self.fnname(st), kw.get("span") or self.where(st)))
                h(self, st, **kw)

    # ------------------------------------------------------------ symbols
    def newsym(self):
        self.nsym += 1
        return self.nsym

    def fresh_int(self, st, ty="usize", lo=0, hi=None):
        s = self.newsym()
        l = L.sym(s)
        if ty and ty.startswith("u"):
            st.cons = st.cons + (L.addc(l, -lo),)
            m = INTMAX.get(ty)
            if m is not None and m < 2**40:
                st.cons = st.cons + ((m, ((s, -1),)),)
        if hi is not None:
            st.cons = st.cons + ((hi, ((s, -1),)),)
        return ('n', l)

    def newcell(self, st, v):
        self.ncell += 1
        c = ('H', self.ncell)
        st.mem[c] = v
        return c

    def opaque(self, ty, prov=None, st=None):
        y = ('y', self.newsym(), ty)
        if prov is not None:
            st.prov[y[1]] = prov
        return y

    def fresh(self, st, ty):
        k = ty[0]
        if k == "int":
            return self.fresh_int(st, ty[1])
        if k == "bool":
            return ('b', ('sym', ('bs', self.newsym())))
        if k == "tuple":
            if not ty[1]:
                return U
            return ('s', ty, 0, None, tuple((i, self.fresh(st, t)) for i, t in enumerate(ty[1])))
        if k in ("ref", "ptr"):
            t = ty[2]
            if t[0] in ("slice", "str"):
                n = self.fresh_int(st)
                c = self.newcell(st, ('c', 'vec', n, None, ('unk',)))
                return ('sl', ('loc', c, ()), ('n', L.ZERO), n)
            c = self.newcell(st, self.fresh(st, t))
            return ('r', ('loc', c, ()), 'mut' if ty[1] else 'ref')
        if k == "adt":
            n = ty[1]
            if n in PINS:
                return self.fresh(st, ty[2][0])
            c = self.models.fresh_adt(self, st, ty)
            if c is not None:
                return c
        if k == "never":
            return ('k', 'never')
        return self.opaque(ty)

    # ------------------------------------------------------------ numeric state
    def N(self, st, l):
        """normal form of Lin under the solved equalities"""
        sub = st.sub
        if not sub:
            return l
        while True:
            for s, _ in l[1]:
                if s in sub:
                    l = L.subst1(l, s, sub[s])
                    break
            else:
                return l

    def add_eq(self, st, l):
        """assume l == 0; False if contradictory"""
        l = self.N(st, l)
        if not l[1]:
            return l[0] == 0
        # solve for a symbol with coefficient +-1, newest first
        best = None
        for s, k in l[1]:
            if abs(k) == 1 and (best is None or s > best[0]):
                best = (s, k)
        if best is None:
            st.cons = st.cons + (l, L.neg(l))
            return not L.infeasible(L.relevant(st.cons, L.syms(l)))
        s, k = best
        rest = (l[0], tuple(x for x in l[1] if x[0] != s))
        e = L.neg(rest) if k == 1 else rest
        st.sub[s] = e
        st.cons = tuple(L.subst1(c, s, e) for c in st.cons)
        for c in st.cons:
            if not c[1] and c[0] < 0:
                return False
        st.cons = tuple(c for c in dict.fromkeys(st.cons) if c[1])
        return not L.infeasible(L.relevant(st.cons, L.syms(e)) + []) if e[1] else self.feas(st)

    def feas(self, st):
        return not L.infeasible(st.cons)

    def entails_ge(self, st, l):
        return L.entails(st.cons, self.N(st, l))

    def entails_eq(self, st, l):
        l = self.N(st, l)
        if not l[1]:
            return l[0] == 0
        return L.entails(st.cons, l) and L.entails(st.cons, L.neg(l))

    def assume_ge(self, st, l):
        """assume l >= 0; False if contradictory"""
        l = L.norm_ge(self.N(st, l))
        if not l[1]:
            return l[0] >= 0
        if L.entails(st.cons, L.addc(L.neg(l), -1)):
            return False
        if L.entails(st.cons, L.neg(l)):
            return self.add_eq(st, l)
        if not L.entails(st.cons, l):
            st.cons = st.cons + (l,)
        return True

    def assume(self, st, e, truth=True):
        """list of states (subset of {st, a copy}) in which boolean expr e has the given truth"""
        if isinstance(e, bool):
            return [st] if e == truth else []
        k = e[0]
        if k == 'not':
            return self.assume(st, e[1], not truth)
        if k == 'ge':
            l = e[1][1]
            if not truth:
                l = L.addc(L.neg(l), -1)
            return [st] if self.assume_ge(st, l) else []
        if k == 'eq' or k == 'ne':
            l = e[1][1]
            if (k == 'eq') == truth:
                return [st] if self.add_eq(st, l) else []
            n = self.N(st, l)
            if not n[1]:
                return [st] if n[0] != 0 else []
            if L.entails(st.cons, n):
                return [st] if self.assume_ge(st, L.addc(n, -1)) else []
            if L.entails(st.cons, L.neg(n)):
                return [st] if self.assume_ge(st, L.addc(L.neg(n), -1)) else []
            s2 = st.copy()
            out = []
            if self.assume_ge(st, L.addc(n, -1)):
                out.append(st)
            if self.assume_ge(s2, L.addc(L.neg(n), -1)):
                out.append(s2)
            return out
        if k == 'sym':
            s = e[1][1]
            if s in st.vf:
                return [st] if st.vf[s] == truth else []
            st.vf[s] = truth
            return [st]
        if k == 'isv':       # ('isv', y, frozenset(variants))
            y, vs = e[1], e[2]
            cur = st.vf.get(y[1])
            if cur is None:
                allv = self.variants(y[2])
                cur = frozenset(range(len(allv))) if allv else None
            if cur is None:
                if truth:
                    st.vf[y[1]] = vs
                return [st]
            n = (cur & vs) if truth else (cur - vs)
            if not n:
                return []
            st.vf[y[1]] = n
            return [st]
        if k == 'and':
            if truth:
                out = []
                for s in self.assume(st, e[1], True):
                    out += self.assume(s, e[2], True)
                return out
            s2 = st.copy()
            out = self.assume(st, e[1], False)
            for s in self.assume(s2, e[1], True):
                out += self.assume(s, e[2], False)
            return out
        if k == 'or':
            return self.assume(st, ('and', ('not', e[1]), ('not', e[2])), not truth)
        raise Exception(e)

    def variants(self, ty):
        if ty and ty[0] == "adt":
            a = self.prog.adts.get(ty[1])
            if a and a["k"] == "enum":
                return a["v"]
        return None

    # ------------------------------------------------------------ store
    def proj(self, st, v, step, ty=None):
        t = v[0]
        if t == 's':
            for i, x in v[4]:
                if i == step[1]:
                    return x
            if v[3] is not None:
                return self.proj(st, v[3], step, ty)
            return MOVED
        if t == 'y':
            if step[0] == 'e':
                return self.opaque(('?',))
            key = (v[1],) + step
            c = st.child.get(key)
            if c is None:
                fty = ty
                if fty is None:
                    fty = self.field_ty(v[2], step)
                c = self.fresh(st, fty) if fty is not None else self.opaque(('?',))
                if c[0] in ('y', 'c') and v[1] in st.prov:
                    c = self.models.child_prov(self, st, v, step, c)
                st.child[key] = c
            return c
        if t == 'c' and step[0] == 'e':
            return self.models.elem_load(self, st, v, step[1])
        if t == 'c' and step[0] == 'mv':
            return self.models.mapval_load(self, st, v, step[1])
        if t == 'm':
            return MOVED
        if t in ('it', 'guard') or t == 'c':
            return self.opaque(ty or ('?',))
        return self.opaque(ty or ('?',))

    def field_ty(self, ty, step):
        if ty and ty[0] == "adt":
            a = self.prog.adts.get(ty[1])
            if a:
                try:
                    f = a["v"][step[0]][2][step[1]]
                except (IndexError, TypeError):
                    return None
                return subst(f[1], dict(zip(a["g"], ty[2])))
        if ty and ty[0] == "tuple":
            try:
                return ty[1][step[1]]
            except IndexError:
                return None
        return None

    def load(self, st, loc):
        v = st.mem.get(loc[1], MOVED)
        for s in loc[2]:
            v = self.proj(st, v, s)
        return v

    def store(self, st, loc, val):
        if not loc[2]:
            st.mem[loc[1]] = val
            return
        st.mem[loc[1]] = self._put(st, st.mem.get(loc[1], MOVED), loc[2], val)

    def _put(self, st, v, path, val):
        s = path[0]
        if len(path) == 1:
            nv = val
        else:
            nv = self._put(st, self.proj(st, v, s), path[1:], val)
        t = v[0]
        if t == 's':
            fs = [x for x in v[4] if x[0] != s[1]]
            fs.append((s[1], nv))
            fs.sort(key=lambda x: x[0])
            return ('s', v[1], v[2], v[3], tuple(fs))
        if t == 'y':
            return ('s', v[2], s[0], v, ((s[1], nv),))
        if t == 'm':
            return ('s', ('?',), s[0], None, ((s[1], nv),))
        if t == 'c' and s[0] == 'e':
            return self.models.elem_store(self, st, v, s[1], nv)
        if t == 'c' and s[0] == 'mv':
            return self.models.mapval_store(self, st, v, s[1], nv)
        return v

    def place(self, st, d, pl):
        """resolve a MIR place in frame depth d to a loc, or ('val', v) for slices"""
        fr = st.fr[d]
        cur = ('loc', ('L', d, pl[0]), ())
        var = 0
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.load(st, cur) if cur[0] == 'loc' else cur[1]
                if v[0] == 'r':
                    cur = v[1]
                elif v[0] == 'sl':
                    cur = ('val', v)
                elif v[0] == 'y':
                    key = (v[1], '*')
                    c = st.child.get(key)
                    if c is None:
                        ty = subst(e[1], fr.subst)
                        pt = ty[2] if ty[0] in ("ref", "ptr") else (ty[2][0] if ty[0] == "adt" and ty[2] else ('?',))
                        cell = self.newcell(st, self.fresh(st, pt))
                        c = ('r', ('loc', cell, ()), 'ref')
                        st.child[key] = c
                    cur = c[1]
                elif v[0] in ('fn', 'k', 'u', 'c'):
                    cell = self.newcell(st, v)
                    cur = ('loc', cell, ())
                else:
                    cell = self.newcell(st, self.opaque(('?',)))
                    cur = ('loc', cell, ())
                var = 0
            elif k == '.':
                bt = subst(e[3], fr.subst)
                if bt[0] == 'adt' and bt[1] in PINS:
                    continue
                step = (var, e[1])
                base = self.load(st, cur) if cur[0] == 'loc' else cur[1]
                if base[0] == 'y' or (base[0] == 's' and base[3] is not None):
                    self.proj(st, base, step, subst(e[2], fr.subst))
                if cur[0] == 'val':
                    cell = self.newcell(st, base)
                    cur = ('loc', cell, ())
                cur = ('loc', cur[1], cur[2] + (step,))
                var = 0
            elif k == 'v':
                var = e[1]
            elif k == '[':
                ix = self.load(st, ('loc', ('L', d, e[1]), ()))
                if cur[0] == 'val':
                    sl = cur[1]
                    ix = ('n', L.add(ix[1], sl[2][1])) if ix[0] == 'n' else ix
                    cur = sl[1]
                cur = ('loc', cur[1], cur[2] + (('e', ix),))
            elif k == 'c[':
                off = ('n', L.const(e[1]))
                if cur[0] == 'val':
                    sl = cur[1]
                    off = ('n', L.add(sl[2][1], off[1])) if not e[2] else ('n', L.addc(sl[3][1], -e[1]))
                    cur = sl[1]
                cur = ('loc', cur[1], cur[2] + (('e', off),))
            elif k == 's[':
                pass
            else:
                pass
        return cur

    def read(self, st, d, pl):
        loc = self.place(st, d, pl)
        if loc[0] == 'val':
            return loc[1]
        v = self.load(st, loc)
        if v[0] == 'm' and not pl[1] and False:
            raise Exception("read of moved")
        return v

    def const(self, st, d, c):
        fr = st.fr[d]
        if "fn" in c:
            f = c["fn"]
            a = tuple(subst(x, fr.subst) for x in f["a"])
            return ('fn', f["id"], f["sn"], a, f.get("r", {}).get("id"), strip_generics(f.get("r", {}).get("p", "")) or None, f.get("tr"))
        t = subst(c["t"], fr.subst)
        if "promoted" in c:
            b = self.prog.promoted.get((c.get("of"), c["promoted"]))
            if b is not None:
                return self.eval_promoted(st, b, fr.subst)
        if "variant" in c:
            return ('s', t, c["variant"], None, ())
        if "v" in c and c["v"] is not None:
            if t[0] == "bool":
                return ('b', bool(c["v"]))
            if t[0] == "int":
                return ('n', L.const(c["v"]))
        if t[0] == "tuple" and not t[1]:
            return U
        if t[0] == "ref" and t[2][0] == "str":
            return ('k', c.get("s", "str"))
        if t[0] == "adt" and t[1] == "core::marker::PhantomData":
            return U
        if t[0] == "closure":
            return ('s', t, 0, None, (), )
        return self.fresh(st, t)

    def eval_promoted(self, st, b, sub):
        """promoted constants are straight-line"""
        # run its assignments in a scratch depth
        d = len(st.fr)
        st.fr = st.fr + (Frame(b, 0, None, sub),)
        try:
            bb = 0
            n = 0
            while n < 50:
                n += 1
                ss, t = b.bbs[bb]
                for s in ss:
                    if s[0] == "=":
                        self.assign(st, d, s[1], s[2])
                if t["k"] == "goto":
                    bb = t["t"]
                    continue
                if t["k"] == "call":
                    loc = self.place(st, d, t["d"])
                    self.store(st, loc, self.fresh(st, subst(t["d"][2], sub)))
                    bb = t["t"]
                    continue
                if t["k"] in ("drop", "assert"):
                    bb = t["t"]
                    continue
                break
            v = st.mem.get(('L', d, 0), MOVED)
            # rehome referenced locals
            v = self.rehome(st, v, d)
        finally:
            st.fr = st.fr[:-1]
            for k in [k for k in st.mem if k[0] == 'L' and k[1] == d]:
                del st.mem[k]
        return v

    def rehome(self, st, v, d):
        if not isinstance(v, tuple):
            return v
        if v and v[0] == 'loc':
            c = v[1]
            if c[0] == 'L' and c[1] == d:
                h = self.newcell(st, U)
                st.mem[h] = self.rehome(st, st.mem.get(c, MOVED), d)
                return ('loc', h, v[2])
            return v
        return tuple(self.rehome(st, x, d) for x in v)

    def op(self, st, d, o):
        if o[0] == 'cp':
            return self.read(st, d, o[1])
        if o[0] == 'mv':
            loc = self.place(st, d, o[1])
            if loc[0] == 'val':
                return loc[1]
            v = self.load(st, loc)
            if v[0] not in ('n', 'b', 'u', 'm', 'fn', 'k'):
                self.store(st, loc, MOVED)
            return v
        return self.const(st, d, o[1])

    def tobool(self, st, v):
        if v[0] == 'b':
            return v[1]
        if v[0] == 'n':
            return ('ne', v)
        if v[0] == 'y':
            return ('sym', ('bs', v[1]))
        return ('sym', ('bs', self.newsym()))

    def disc(self, st, v, ty):
        """abstract discriminant of value v"""
        if v[0] == 's':
            vs = self.variants(v[1]) or self.variants(ty)
            if vs:
                return ('n', L.const(vs[v[2]][1]))
            return ('n', L.const(v[2]))
        if v[0] == 'y':
            t = v[2] if self.variants(v[2]) else ty
            vs = self.variants(t)
            cur = st.vf.get(v[1])
            if isinstance(cur, frozenset) and len(cur) == 1 and vs:
                return ('n', L.const(vs[next(iter(cur))][1]))
            return ('disc', ('y', v[1], t))
        return self.fresh_int(st, "isize")

    def assign(self, st, d, pl, rv):
        v = self.rvalue(st, d, rv, pl)
        loc = self.place(st, d, pl)
        if loc[0] == 'loc':
            self.store(st, loc, v)

    def opty(self, o, fr):
        if o[0] in ('cp', 'mv'):
            t = subst(o[1][2], fr.subst)
            return t[1] if t[0] == 'int' else None
        return None

    def intcast(self, st, v, a, b):
        """the value of v: a after `as b`; a == None: a constant"""
        if b not in BITS or a is not None and a not in BITS:
            return v
        lo, hi = rng(b)
        if a is not None and (rng(a)[0] >= lo and rng(a)[1] <= hi or BITS[a] == BITS[b] == 64):
            return v
        l = self.N(st, v[1])
        if not l[1]:
            x = l[0] & (2**BITS[b] - 1)
            return ('n', L.const(x - 2**BITS[b] if x > hi else x))
        if a is None or BITS[b] < 40:
            if a and rng(a)[0] >= lo or self.entails_ge(st, L.addc(l, -lo)):
                if a and rng(a)[1] <= hi or self.entails_ge(st, L.addc(L.neg(l), hi)):
                    return v
        return self.fresh_int(st, b)

    def rvalue(self, st, d, rv, pl):
        k = rv[0]
        fr = st.fr[d]
        if k == 'use':
            return self.op(st, d, rv[1])
        if k == 'ref':
            p = rv[2]
            loc = self.place(st, d, p)
            if loc[0] == 'val':
                return loc[1]
            return ('r', loc, 'mut' if rv[1] else 'ref')
        if k == 'cast':
            v = self.op(st, d, rv[2])
            t = subst(rv[3], fr.subst)
            if v[0] == 'disc':
                return v
            if v[0] == 'n':
                if t[0] == 'int':
                    return self.intcast(st, v, self.opty(rv[2], fr), t[1])
                return self.fresh(st, t)
            if v[0] == 'b' and t[0] == 'int':
                if isinstance(v[1], bool):
                    return ('n', L.const(int(v[1])))
                return self.fresh_int(st, t[1], 0, 1)
            if 'Unsize' in rv[1] and v[0] == 'r':
                x = self.load(st, v[1])
                if x[0] == 'c':
                    return ('sl', v[1], ('n', L.ZERO), x[2])
                return v
            if v[0] == 's' and t[0] == 'int':
                return self.disc(st, v, v[1])
            if v[0] == 'y' and t[0] == 'int' and self.variants(v[2]):
                return self.disc(st, v, v[2])
            return v
        if k == 'bin':
            a = self.op(st, d, rv[2])
            b = self.op(st, d, rv[3])
            return self.binop(st, rv[1], a, b, subst(pl[2], fr.subst))
        if k == 'un':
            a = self.op(st, d, rv[2])
            if rv[1] == 'Not':
                if a[0] == 'b':
                    return ('b', (not a[1]) if isinstance(a[1], bool) else ('not', a[1]))
                return self.fresh(st, subst(pl[2], fr.subst))
            if rv[1] == 'Neg' and a[0] == 'n':
                return ('n', L.neg(a[1]))
            if rv[1] == 'PtrMetadata':
                if a[0] == 'sl':
                    return ('n', L.sub(a[3][1], a[2][1]))
                if a[0] == 'r':
                    x = self.load(st, a[1])
                    if x[0] == 'c':
                        return x[2]
                return self.fresh_int(st)
            return self.fresh(st, subst(pl[2], fr.subst))
        if k == 'discr':
            loc = self.place(st, d, rv[1])
            v = self.load(st, loc) if loc[0] == 'loc' else loc[1]
            return self.disc(st, v, subst(rv[1][2], fr.subst))
        if k == 'agg':
            kk = rv[1]
            ops = [self.op(st, d, o) for o in rv[2]]
            if kk[0] == 'adt':
                if kk[1] in PINS:
                    return ops[0]
                ty = subst(pl[2], fr.subst)
                if kk[3] is not None:
                    return ('s', ty, kk[2], None, ((kk[3], ops[0]),))
                return ('s', ty, kk[2], None, tuple(enumerate(ops)))
            if kk[0] in ('closure', 'coroutine'):
                return ('s', (kk[0], kk[1], tuple(sorted(fr.subst.items()))), 0, None, tuple(enumerate(ops)))
            if kk[0] == 'tuple':
                if not ops:
                    return U
                return ('s', ('tuple', ()), 0, None, tuple(enumerate(ops)))
            if kk[0] == 'array':
                return ('c', 'arr', ('n', L.const(len(ops))), None, ('list', tuple(ops)))
            return self.opaque(subst(pl[2], fr.subst))
        if k == 'rep':
            v = self.op(st, d, rv[1])
            try:
                n = int(str(rv[2]).split('_')[0])
                n = ('n', L.const(n))
            except ValueError:
                n = self.fresh_int(st)
            return ('c', 'arr', n, None, ('bytes', 'junk'))
        return self.fresh(st, subst(pl[2], fr.subst))

    def binop(self, st, op, a, b, ty):
        chk = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return ('b', self.compare(st, o, a, b))
        if a[0] == 'b' and b[0] == 'b' and o in ("BitAnd", "BitOr", "BitXor"):
            x, y = a[1], b[1]
            if o == "BitAnd":
                if x is False or y is False:
                    return FALSE
                if x is True:
                    return b
                if y is True:
                    return a
                return ('b', ('and', x, y))
            if o == "BitOr":
                if x is True or y is True:
                    return TRUE
                if x is False:
                    return b
                if y is False:
                    return a
                return ('b', ('or', x, y))
            neg = lambda z: (not z) if isinstance(z, bool) else ('not', z)
            if isinstance(x, bool) or isinstance(y, bool):
                x, y = (x, y) if isinstance(x, bool) else (y, x)
                return ('b', neg(y) if x else y)
            return ('b', ('or', ('and', x, neg(y)), ('and', neg(x), y)))
        it = ty
        if chk and ty[0] == 'tuple':
            it = ty[1][0]
        w = it[1] if it[0] == 'int' else 'usize'
        r = None
        ov = False
        if a[0] == 'n' and b[0] == 'n':
            x, y = self.N(st, a[1]), self.N(st, b[1])
            if o == "Add":
                r = ('n', L.add(x, y))
                if w in INTMAX:
                    ov = ('ge', ('n', L.addc(r[1], -INTMAX[w] - 1)))
            elif o == "Sub":
                r = ('n', L.sub(x, y))
                if w.startswith("u"):
                    ov = ('not', ('ge', r))
            elif o == "Mul" and (L.is_const(x) or L.is_const(y)):
                r = ('n', L.scale(x, y[0]) if L.is_const(y) else L.scale(y, x[0]))
                if w in INTMAX:
                    ov = ('ge', ('n', L.addc(r[1], -INTMAX[w] - 1)))
            elif L.is_const(x) and L.is_const(y):
                try:
                    c = {"Shl": lambda: x[0] << y[0], "Shr": lambda: x[0] >> y[0], "Div": lambda: x[0] // y[0],
                         "Rem": lambda: x[0] % y[0], "BitAnd": lambda: x[0] & y[0], "BitOr": lambda: x[0] | y[0],
                         "BitXor": lambda: x[0] ^ y[0]}.get(o)
                    if c:
                        r = ('n', L.const(c()))
                except Exception:
                    r = None
            if r is None:
                r = self.fresh_int(st, w)
                if o == "Div" and L.is_const(y) and y[0] > 0 and w.startswith("u"):
                    # y*r <= x <= y*r + y-1
                    st.cons = st.cons + (L.sub(x, L.scale(r[1], y[0])),
                                         L.sub(L.addc(L.scale(r[1], y[0]), y[0] - 1), x))
                elif o == "Rem" and L.is_const(y) and y[0] > 0 and w.startswith("u"):
                    st.cons = st.cons + (L.sub(L.const(y[0] - 1), r[1]),)
                elif o == "Mul":
                    ov = ('sym', ('bs', self.newsym()))
        if r is None:
            r = self.fresh(st, it)
        if chk:
            return ('s', ty, 0, None, ((0, r), (1, ('b', ov))))
        if o == "Cmp":
            return self.fresh(st, ty)
        return r

    def compare(self, st, o, a, b):
        if a[0] == 'disc' or b[0] == 'disc':
            if a[0] != 'disc':
                a, b = b, a
            if b[0] == 'n' and L.is_const(self.N(st, b[1])) and o in ("Eq", "Ne"):
                vs = self.variants(a[1][2])
                c = self.N(st, b[1])[0]
                if vs:
                    e = ('isv', a[1], frozenset(i for i, v in enumerate(vs) if v[1] == c))
                    return e if o == "Eq" else ('not', e)
            if b[0] == 'disc' and a[1][1] == b[1][1]:
                return o == "Eq"
            return ('sym', ('bs', self.newsym()))
        if a[0] == 'b' and b[0] == 'b':
            if o in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x[1], bool):
                        same = x[1] == (o == "Eq")
                        if isinstance(y[1], bool):
                            return y[1] == same
                        return y[1] if same else ('not', y[1])
            return ('sym', ('bs', self.newsym()))
        if a[0] != 'n' or b[0] != 'n':
            if a == b and a[0] in ('y', 'r') and o in ("Eq", "Ne"):
                return o == "Eq"
            return ('sym', ('bs', self.newsym()))
        d = self.N(st, L.sub(a[1], b[1]))
        e = {"Eq": lambda: ('eq', ('n', d)), "Ne": lambda: ('ne', ('n', d)),
             "Lt": lambda: ('ge', ('n', L.addc(L.neg(d), -1))), "Le": lambda: ('ge', ('n', L.neg(d))),
             "Gt": lambda: ('ge', ('n', L.addc(d, -1))), "Ge": lambda: ('ge', ('n', d))}[o]()
        x = e[1][1]
        if not x[1]:
            return {"eq": x[0] == 0, "ne": x[0] != 0, "ge": x[0] >= 0}[e[0]]
        return e

    # ------------------------------------------------------------ frames and calls
    def push(self, st, body, args, dest, sub, site=None, co=None):
        d = len(st.fr)
        self.stats["functions"].add(body.id)
        if d > 40:
            raise Budget("call depth")
        st.fr = st.fr + (Frame(body, 0, dest, sub, co, site),)
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == d]:
            del st.mem[k]
        if body.spread is not None and not (len(args) == body.argc):
            pass
        for i, a in enumerate(args):
            st.mem[('L', d, i + 1)] = a

    def ret(self, st, v):
        """pop the top frame, deliver v"""
        d = len(st.fr) - 1
        f = st.fr[d]
        for k in [k for k in st.mem if len(k) > 1 and k[0] in ('L', 'S') and k[1] == d]:
            del st.mem[k]
        st.fr = st.fr[:-1]
        if isinstance(f, Frame) and f.co == 'co':
            v = ('s', ('adt', 'core::task::poll::Poll', ()), 0, None, ((0, v),))
        if not st.fr:
            self.exits.append((st, v))
            return []
        top = st.fr[-1]
        if isinstance(top, SFrame):
            return self.models.sresume(self, st, v)
        if f.dest is not None:
            self.store(st, f.dest, v)
        return [st]

    def setbb(self, st, bb):
        st.fr = st.fr[:-1] + (st.fr[-1].at(bb),)

    # ------------------------------------------------------------ canonical form, merging
    def traverse(self, st, f):
        """walk everything reachable; f(lin) -> (token, newlin).  Returns (shape, new state)."""
        ns = St()
        ns.tr, ns.flags = st.tr, st.flags
        ysn = {}
        cells = {}
        out = []

        def cell(c):
            if c in cells:
                return cells[c]
            if c[0] == 'H':
                n = ('H', sum(1 for x in cells if x[0] == 'H'))
            else:
                n = c
            cells[c] = n
            v = st.mem.get(c, MOVED)
            sv, nv = walk(v)
            ns.mem[c] = nv
            out.append((n, sv))
            return n

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return v, v
            t = v[0]
            if t == 'n' and len(v) == 2 and isinstance(v[1], tuple):
                tok, nl = f(self.N(st, v[1]))
                return tok, ('n', nl)
            if t == 'y':
                sid = v[1]
                if sid in ysn:
                    return ('y', ysn[sid]), v
                n = len(ysn)
                ysn[sid] = n
                facts = []
                if sid in st.vf:
                    vf = st.vf[sid]
                    facts.append(('vf', tuple(sorted(vf)) if isinstance(vf, frozenset) else vf))
                    ns.vf[sid] = vf
                if sid in st.prov:
                    a, b = walk(st.prov[sid])
                    facts.append(('prov', a))
                    ns.prov[sid] = b
                for key in chix.get(sid, ()):
                    a, b = walk(st.child[key])
                    facts.append((key[1:], a))
                    ns.child[key] = b
                for key in mmix.get(sid, ()):
                    a, b = walk(st.memo[key])
                    facts.append((key[0], a))
                    ns.memo[key] = b
                return ('y', n, tuple(facts)), v
            if t == 'bs':
                sid = v[1]
                if sid in ysn:
                    return ('bs', ysn[sid]), v
                ysn[sid] = len(ysn)
                if sid in st.vf:
                    ns.vf[sid] = st.vf[sid]
                return ('bs', ysn[sid], st.vf.get(sid)), v
            if t == 'loc':
                c = cell(v[1])
                a, b = walk(v[2])
                return ('loc', c, a), ('loc', v[1], b)
            if t == 's':
                a, b = walk(v[3]) if v[3] is not None else (None, None)
                x, y = walk(v[4])
                return ('s', v[2], a, x), ('s', v[1], v[2], b, y)
            if t == 'fn':
                return ('fn', v[1], v[4]), v
            xs, ys = [], []
            for x in v:
                if isinstance(x, tuple):
                    a, b = walk(x)
                    xs.append(a)
                    ys.append(b)
                else:
                    xs.append(x)
                    ys.append(x)
            return tuple(xs), tuple(ys)

        chix, mmix = {}, {}
        for key in st.child:
            chix.setdefault(key[0], []).append(key)
        for x in chix.values():
            x.sort(key=str)
        for key in st.memo:
            mmix.setdefault(key[1], []).append(key)
        for x in mmix.values():
            x.sort(key=str)
        nf = []
        for d, fr in enumerate(st.fr):
            if isinstance(fr, Frame):
                if fr.body is not None:
                    for l in fr.body.live[fr.bb]:
                        c = ('L', d, l)
                        if c in st.mem:
                            cell(c)
                a, b = walk(fr.dest) if fr.dest is not None else (None, None)
                out.append(('fr', fr.body.id, fr.bb, a, fr.co))
                nf.append(Frame(fr.body, fr.bb, b, fr.subst, fr.co, fr.site, fr.cb))
            else:
                a, b = walk(fr.dest) if fr.dest is not None else (None, None)
                x, y = walk(fr.data)
                c = ('S', d)
                if c in st.mem:
                    cell(c)
                out.append(('sf', fr.kind, fr.pc, a, x))
                nf.append(SFrame(fr.kind, fr.pc, y, b, fr.site))
        for c in sorted(k for k in st.mem if k[0] == 'G'):
            cell(c)
        for k in sorted(st.mon):
            a, b = walk(st.mon[k])
            out.append((k, a))
            ns.mon[k] = b
        ns.fr = tuple(nf)
        out.append(tuple(sorted(st.flags)))
        return tuple(out), ns

    def canon(self, st):
        slots = []

        def f(l):
            slots.append(l)
            return '#', l
        shape, ns = self.traverse(st, f)
        ss = [s for l in slots for s, _ in l[1]]
        ns.cons = tuple(L.relevant([c for c in st.cons if c[1]], ss))
        ns.sub = {}
        # constraints are already in normal form w.r.t. sub except ones added raw
        ns.cons = tuple(dict.fromkeys(self.N(st, c) for c in ns.cons))
        return shape, slots, ns

    def rebuild(self, st, newslots):
        it = iter(newslots)

        def f(l):
            return '#', next(it)
        _, ns = self.traverse(st, f)
        return ns

    def merge(self, st, key, widen):
        """returns (shape key, disjunct, state to continue with), or None if covered"""
        if self.models.simplify(self, st, key, widen) is False:
            return None
        shape, slots, ns = self.canon(st)
        k = (key, shape)
        ps = self.points.get(k)
        if ps is None:
            self.points[k] = [(slots, ns.cons, None, 0)]
            self.stats["states"] += 1
            return k, 0, ns
        for (os, oc, poly, j) in ps:
            if poly is None:
                poly = L.from_state(os, oc)
                ps[ps.index((os, oc, None, j))] = (os, oc, poly, j)
            if self.included(slots, ns.cons, poly):
                self.stats["merged"] += 1
                return None
        if not widen and len(ps) < self.maxdis:
            ps.append((slots, ns.cons, None, 0))
            self.stats["states"] += 1
            return k, len(ps) - 1, ns
        # join with the last one
        os, oc, poly, j = ps[-1]
        if poly is None:
            poly = L.from_state(os, oc)
        n = len(slots)
        eqs, res = L.join(os, oc, poly.eqs, poly.ineqs, slots, ns.cons, j < (5 if widen else 20))
        # fresh parametrisation
        piv = {}
        for e in eqs:
            piv[e[1][0][0]] = e
        base = {}
        ok = True
        for i in range(n):
            if i not in piv:
                base[i] = L.sym(self.newsym())
        newslots = []
        for i in range(n):
            if i in piv:
                e = piv[i]
                k0 = e[1][0][1]
                acc = L.const(e[0])
                for jx, kx in e[1][1:]:
                    acc = L.add(acc, L.scale(base[jx], kx))
                if abs(k0) == 1:
                    newslots.append(L.scale(acc, -k0))
                else:
                    s = L.sym(self.newsym())
                    newslots.append(s)
            else:
                newslots.append(base[i])
        st2 = self.rebuild(ns, newslots)
        st2.cons = tuple(c for c in (L.norm_ge(L.at(newslots, c)) for c in res) if c[1])
        st2.sub = {}
        np = L.Poly(n, eqs, res)
        ps[-1] = (newslots, st2.cons, np, j + 1)
        self.stats["states"] += 1
        if j > 40:
            raise Budget("no convergence at " + str(key))
        return k, len(ps) - 1, st2

    def included(self, slots, cons, poly):
        return L.included(slots, cons, poly.eqs, poly.ineqs)

    # ------------------------------------------------------------ running
    def run(self, st):
        """explore to fixpoint from st (or a list of states); returns the exits [(state, value)].
        Program points are visited in weak topological order, so that joins see all predecessors."""
        self.exits = []
        heap, pend = [], {}
        first = list(st) if isinstance(st, list) else [st]
        work = first
        while work or heap:
            while work:
                s = work.pop()
                w = self.mergepoint(s)
                if w is None:
                    work.extend(self.step(s))
                else:
                    k = self.pointkey(s)
                    q = pend.get(k)
                    if q is None:
                        pend[k] = [s]
                        heapq.heappush(heap, (self.prio(s), len(pend), k, w))
                    else:
                        q.append(s)
            if heap:
                _, _, k, w = heapq.heappop(heap)
                got = {}
                for s in pend.pop(k):
                    r = self.merge(s, k, w)
                    if r is not None:
                        got[(r[0], r[1])] = r[2]
                for s in got.values():
                    work.extend(self.step(s))
        r = self.exits
        self.exits = []
        return r

    def mergepoint(self, st):
        """None, or whether to widen"""
        top = st.fr[-1]
        if isinstance(top, SFrame):
            return True if top.pc == 0 and self.models.sloop(top) else None
        if top.bb in top.body.loops:
            return True
        return False if top.body.npred[top.bb] > 1 else None

    def prio(self, st):
        n = len(st.fr) - 1
        out = []
        for i, f in enumerate(st.fr):
            if isinstance(f, Frame):
                out.append(f.body.wto[f.bb] if i == n else f.body.wto[f.cb])
            else:
                out.append(0)
        return tuple(out)

    def pointkey(self, st):
        return tuple((f.body.id, f.bb) if isinstance(f, Frame) else (f.kind, f.pc) for f in st.fr)

    def step(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("steps")
        top = st.fr[-1]
        if isinstance(top, SFrame):
            return self.models.sstep(self, st)
        b, bb = top.body, top.bb
        if bb in b.loops:
            self.stats["loops"].add((b.id, bb))
        self.stats["blocks"] += 1
        d = len(st.fr) - 1
        ss, t = b.bbs[bb]
        for s in ss:
            k = s[0]
            if k == '=':
                self.assign(st, d, s[1], s[2])
            elif k == 'dead':
                st.mem.pop(('L', d, s[1]), None)
            elif k == 'sd':
                loc = self.place(st, d, s[1])
                v = self.load(st, loc)
                if v[0] == 's':
                    self.store(st, loc, ('s', v[1], s[2], v[3], v[4]))
                else:
                    self.store(st, loc, ('s', subst(s[1][2], top.subst), s[2], None, ()))
        return self.term(st, d, t)

    def term(self, st, d, t):
        k = t["k"]
        top = st.fr[-1]
        if k == "goto":
            self.setbb(st, t["t"])
            return [st]
        if k == "ret":
            v = st.mem.get(('L', d, 0), U)
            if v[0] == 'm':
                v = U
            return self.ret(st, v)
        if k == "switch":
            return self.switch(st, d, t)
        if k == "drop":
            loc = self.place(st, d, t["p"])
            self.setbb(st, t["t"])
            if loc[0] != 'loc':
                return [st]
            v = self.load(st, loc)
            if v[0] in ('m', 'n', 'b', 'u', 'k', 'fn', 'sl'):
                return [st]
            self.store(st, loc, MOVED)
            return self.models.start_drop(self, st, v, t["sp"])
        if k == "assert":
            c = self.op(st, d, t["c"])
            e = self.tobool(st, c)
            bad = st.copy()
            exp = t["e"]
            out = []
            fails = self.assume(bad, e, not exp)
            for f in fails:
                self.emit(f, "panic", kind="assert:" + t["m"], span=t["sp"], ops=t["ops"], d=d)
            for g in self.assume(st, e, exp):
                self.setbb(g, t["t"])
                out.append(g)
            return out
        if k == "call":
            return self.call(st, d, t)
        if k == "yield":
            return self.models.on_yield(self, st, d, t)
        if k == "coroutinedrop":
            return self.models.on_codrop(self, st, d)
        if k in ("unreachable", "cleanup"):
            return []
        self.emit(st, "panic", kind="term:" + k, span=t.get("sp"), ops=[], d=d)
        return []

    def switch(self, st, d, t):
        v = self.op(st, d, t["d"])
        out = []
        if v[0] == 'b':
            e = v[1]
            seen = []
            for val, bb in t["v"]:
                s = st.copy()
                for g in self.assume(s, e, bool(val)):
                    self.setbb(g, bb)
                    out.append(g)
                seen.append(bool(val))
            for tv in (True, False):
                if tv not in seen:
                    s = st.copy()
                    for g in self.assume(s, e, tv):
                        self.setbb(g, t["o"])
                        out.append(g)
            if len(out) > 1:
                for g in out:
                    g.log(f"{t['sp']} branch bb{g.fr[-1].bb}")
            return out
        if v[0] == 'disc':
            y = v[1]
            vs = self.variants(y[2]) or []
            cur = st.vf.get(y[1])
            if not isinstance(cur, frozenset):
                cur = frozenset(range(len(vs)))
            left = set(cur)
            for val, bb in t["v"]:
                m = frozenset(i for i in left if vs[i][1] == val)
                if m:
                    s = st.copy()
                    s.vf[y[1]] = m
                    s.log(f"{t['sp']} {tystr(y[2])[:40]} is {vs[next(iter(m))][0]}")
                    self.setbb(s, bb)
                    out.append(s)
                    left -= m
            if left and self.live_target(st, t["o"]):
                s = st
                s.vf[y[1]] = frozenset(left)
                s.log(f"{t['sp']} {tystr(y[2])[:40]} is {'/'.join(vs[i][0] for i in sorted(left)[:3])}")
                self.setbb(s, t["o"])
                out.append(s)
            return out
        if v[0] == 'n':
            n = self.N(st, v[1])
            if not n[1]:
                for val, bb in t["v"]:
                    if n[0] == val:
                        self.setbb(st, bb)
                        return [st]
                self.setbb(st, t["o"])
                return [st]
            cur = [st]
            for val, bb in t["v"]:
                nxt = []
                for c in cur:
                    s = c.copy()
                    for g in self.assume(s, ('eq', ('n', L.addc(n, -val))), True):
                        self.setbb(g, bb)
                        out.append(g)
                    nxt += self.assume(c, ('eq', ('n', L.addc(n, -val))), False)
                cur = nxt
            for c in cur:
                self.setbb(c, t["o"])
                out.append(c)
            return out
        # unknown
        for bb in dict.fromkeys([b for _, b in t["v"]] + [t["o"]]):
            s = st.copy()
            self.setbb(s, bb)
            out.append(s)
        return out

    def live_target(self, st, bb):
        return st.fr[-1].body.bbs[bb][1]["k"] != "unreachable" or bool(st.fr[-1].body.bbs[bb][0])

    def call(self, st, d, t):
        top = st.fr[-1]
        f = self.op(st, d, t["f"])
        args = [self.op(st, d, a) for a in t["a"]]
        dty = subst(t["d"][2], top.subst)
        if t["t"] is None:
            dest = None
        else:
            dest = self.place(st, d, t["d"])
            if dest[0] != 'loc':
                dest = None
            self.setbb(st, t["t"])
        return self.invoke(st, f, args, dest, dty, t["sp"], t["t"] is None)

    def invoke(self, st, f, args, dest, dty, sp, diverges=False):
        """call function value f; the result goes to dest in the (new) top frame"""
        st.fr = st.fr[:-1] + (self._site(st.fr[-1], sp),)
        if f[0] == 'fn':
            _, fid, sn, fa, rid, rsn, tr = f
            self.stats["calls"][sn] = self.stats["calls"].get(sn, 0) + 1
            r = self.models.call(self, st, f, args, dest, dty, sp, diverges)
            if r is not None:
                return r
            # local or followed body
            for i in (rid, fid):
                b = self.prog.bodies.get(i) if i else None
                if b is not None and (not tr or i == rid or not self.models.is_abstract(self, i)):
                    sub = dict(zip(b.g, fa)) if i == fid or (rid == fid) else self.impl_subst(b, fa, args)
                    self.push(st, b, args, dest, sub, sp)
                    return [st]
            return self.models.external(self, st, f, args, dest, dty, sp, diverges)
        if f[0] in ('s', 'r'):
            return self.models.call_value(self, st, f, args, dest, dty, sp)
        return self.models.external(self, st, ('fn', '?dyn', '?dyn', (), None, None, None), args, dest, dty, sp, diverges)

    def impl_subst(self, b, fa, args):
        """generics of a resolved impl method: match the impl's Self type against the trait's Self"""
        env = {}
        if b.self is not None and fa:
            unify(b.self, fa[0], env)
        own = [g for g in b.g if g not in env]
        rest = list(fa[1:])
        if own and len(rest) >= len(own):
            for g, t in zip(own, rest[-len(own):]):
                env.setdefault(g, t)
        return env

    def _site(self, f, sp):
        if isinstance(f, Frame):
            return Frame(f.body, f.bb, f.dest, f.subst, f.co, sp, f.cb)
        return f

    def finish(self, st, dest, v, diverges=False):
        if diverges:
            return []
        top = st.fr[-1]
        if isinstance(top, SFrame):
            return self.models.sresume(self, st, v)
        if dest is not None:
            self.store(st, dest, v)
        return [st]


def unify(pat, t, env):
    if pat[0] == 'param':
        env.setdefault(pat[1], t)
        return
    if pat[0] == 'adt' and t[0] == 'adt' and pat[1] == t[1]:
        for a, b in zip(pat[2], t[2]):
            unify(a, b, env)
    elif pat[0] in ('ref', 'ptr') and t[0] in ('ref', 'ptr'):
        unify(pat[2], t[2], env)
    elif pat[0] == 'tuple' and t[0] == 'tuple':
        for a, b in zip(pat[1], t[1]):
            unify(a, b, env)
