"""Linear expressions over integer symbols, and the numeric abstract domain built on them:
affine equalities (Karr) plus linear inequalities, with inclusion by Fourier-Motzkin elimination
and a weak join.  A Lin is (const, ((sym, coef), ...)) with the symbols sorted."""
from fractions import Fraction
from math import gcd


def const(c):
    return (c, ())


ZERO = (0, ())
ONE = (1, ())


def sym(s):
    return (0, ((s, 1),))


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        v = d.get(s, 0) + k
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def neg(a):
    return (-a[0], tuple((s, -c) for s, c in a[1]))


def sub(a, b):
    return add(a, neg(b))


def addc(a, c):
    return (a[0] + c, a[1])


def is_const(a):
    return not a[1]


def subst1(a, s, e):
    """a with symbol s replaced by Lin e"""
    for t, k in a[1]:
        if t == s:
            r = (a[0], tuple(x for x in a[1] if x[0] != s))
            return add(r, scale(e, k))
    return a


def norm_ge(a):
    """normalise a >= 0 over integers: divide by the gcd of the coefficients, floor the constant"""
    if not a[1]:
        return a
    g = 0
    for _, k in a[1]:
        g = gcd(g, k)
    if g > 1:
        return (a[0] // g, tuple((s, k // g) for s, k in a[1]))
    return a


def norm_q(c, terms):
    """Fractions -> integer Lin (positive scaling)"""
    d = c.denominator
    for _, k in terms:
        d = d * k.denominator // gcd(d, k.denominator)
    return (int(c * d), tuple(sorted((s, int(k * d)) for s, k in terms if k)))


MAXC = 220


class GaveUp(Exception):
    pass


def infeasible(cons):
    """are the constraints (each Lin >= 0) contradictory?  May answer False when it gives up."""
    cur = {}
    for c in cons:
        c = norm_ge(c)
        if not c[1]:
            if c[0] < 0:
                return True
            continue
        o = cur.get(c[1])
        if o is None or c[0] < o:
            cur[c[1]] = c[0]
    while cur:
        # opposite pairs
        pos, negs = {}, {}
        for t in cur:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    negs[s] = negs.get(s, 0) + 1
        best, bs = None, None
        for s in set(pos) | set(negs):
            cost = pos.get(s, 0) * negs.get(s, 0) - pos.get(s, 0) - negs.get(s, 0)
            if best is None or cost < best or (cost == best and str(s) < str(bs)):
                best, bs = cost, s
        P, N, R = [], [], {}
        for t, c in cur.items():
            k = 0
            for s, kk in t:
                if s == bs:
                    k = kk
            if k > 0:
                P.append((k, (c, t)))
            elif k < 0:
                N.append((-k, (c, t)))
            else:
                R[t] = c
        for kp, p in P:
            for kn, n in N:
                g = gcd(kp, kn)
                r = norm_ge(add(scale(p, kn // g), scale(n, kp // g)))
                if not r[1]:
                    if r[0] < 0:
                        return True
                    continue
                o = R.get(r[1])
                if o is None or r[0] < o:
                    R[r[1]] = r[0]
        if len(R) > MAXC:
            return False
        cur = R
    return False


def solve(cons, pick=0):
    """None if contradictory; else an assignment satisfying the constraints ({} if it gives up)"""
    cur = {}
    for c in cons:
        c = norm_ge(c)
        if not c[1]:
            if c[0] < 0:
                return None
            continue
        o = cur.get(c[1])
        if o is None or c[0] < o:
            cur[c[1]] = c[0]
    stages = []
    while cur:
        pos, negs = {}, {}
        for t in cur:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    negs[s] = negs.get(s, 0) + 1
        best, bs = None, None
        for s in pos.keys() | negs.keys():
            p, n = pos.get(s, 0), negs.get(s, 0)
            cost = p * n - p - n
            if best is None or cost < best or (cost == best and s < bs):
                best, bs = cost, s
        P, N, R = [], [], {}
        for t, c in cur.items():
            k = 0
            for s, kk in t:
                if s == bs:
                    k = kk
                    break
            if k > 0:
                P.append((k, (c, t)))
            elif k < 0:
                N.append((-k, (c, t)))
            else:
                R[t] = c
        stages.append((bs, P, N))
        for kp, p in P:
            for kn, n in N:
                g = gcd(kp, kn)
                r = norm_ge(add(scale(p, kn // g), scale(n, kp // g)))
                if not r[1]:
                    if r[0] < 0:
                        return None
                    continue
                o = R.get(r[1])
                if o is None or r[0] < o:
                    R[r[1]] = r[0]
        if len(R) > MAXC:
            return {}
        cur = R
    w = {}
    for s, P, N in reversed(stages):
        lo = hi = None
        for k, (c, t) in P:
            v = c
            for q, kk in t:
                if q != s:
                    v += kk * w.get(q, 0)
            b = -(v // k) if not isinstance(v, Fraction) else -v / k      # x >= -v/k
            lo = b if lo is None or b > lo else lo
        for k, (c, t) in N:
            v = c
            for q, kk in t:
                if q != s:
                    v += kk * w.get(q, 0)
            b = v // k if not isinstance(v, Fraction) else v / k
            hi = b if hi is None or b < hi else hi
        if lo is None and hi is None:
            w[s] = 0 if pick == 0 else 1000003
        elif lo is None:
            w[s] = hi
        elif hi is None:
            w[s] = lo if pick == 0 else lo + 1000
        elif lo > hi:
            return {}        # no integer point along this choice: give up (not a proof)
        else:
            w[s] = lo if pick == 0 else hi if pick == 1 else (lo + hi) // 2
    return w


def ev(l, w, base):
    v = l[0]
    for s, k in l[1]:
        x = w.get(s)
        if x is None:
            x = base.get(s, 0)
        v += k * x
    return v


class Oracle:
    """repeated entailment queries against one constraint set, with counter-models"""

    def __init__(self, cons):
        self.cons = cons
        self.ws = []
        b = solve(cons) or {}
        self.base = b
        if b:
            self.ws.append(b)
            h = solve(cons, 1)
            if h:
                self.ws.append(h)

    def entails(self, g):
        if not g[1]:
            return g[0] >= 0
        for w in self.ws:
            if ev(g, w, self.base) < 0:
                return False
        r = relevant(self.cons, syms(g))
        g = norm_ge(g)
        for c in r:
            if c[1] == g[1] and c[0] <= g[0]:
                return True
        key = (tuple(sorted(set(r))), g)
        v = _cache.get(key)
        if v is not None:
            return v
        w = solve(r + [addc(neg(g), -1)])
        v = w is None
        _cache[key] = v
        if w:
            self.ws.insert(0, w)
            if len(self.ws) > 12:
                self.ws.pop()
        return v


def relevant(cons, goal_syms):
    """constraints connected to the goal through shared symbols"""
    todo = set(goal_syms)
    got = []
    rest = list(cons)
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for c in rest:
            if any(s in todo for s, _ in c[1]):
                got.append(c)
                for s, _ in c[1]:
                    todo.add(s)
                changed = True
            else:
                nr.append(c)
        rest = nr
    return got


def syms(a):
    return [s for s, _ in a[1]]


_cache = {}


def entails(cons, g):
    """cons |= g >= 0 ?"""
    if not g[1]:
        if g[0] >= 0:
            return True
        return False
    r = relevant(cons, syms(g))
    g = norm_ge(g)
    for c in r:
        if c[1] == g[1] and c[0] <= g[0]:
            return True
    key = (tuple(sorted(set(r))), g)
    v = _cache.get(key)
    if v is None:
        v = infeasible(r + [addc(neg(g), -1)])
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = v
    return v


# ---------------------------------------------------------------- slot polyhedra
class Poly:
    """{x in Z^n}: affine hull as point+directions, and inequalities over the slot variables."""
    __slots__ = ("n", "eqs", "ineqs", "point", "dirs", "joins")

    def __init__(self, n, eqs, ineqs, joins=0):
        self.n = n
        self.eqs = eqs          # list of Lin over slot ids (0..n-1), reduced echelon
        self.ineqs = ineqs      # list of Lin >= 0 over slot ids
        self.joins = joins


def _rref_cols(rows, ncols):
    """rows: dicts column -> number (column >= ncols: not eliminated).  Returns (pivot rows, pivots, rest)."""
    rows = [dict(r) for r in rows]
    out, piv = [], []
    cols = sorted({c for r in rows for c in r if c < ncols})
    for col in cols:
        p = None
        for i, r in enumerate(rows):
            if col in r and (p is None or len(r) < len(rows[p])):
                p = i
        if p is None:
            continue
        r = rows.pop(p)
        k = r[col]
        if k == -1:
            r = {j: -x for j, x in r.items()}
        elif k != 1:
            r = {j: _div(x, k) for j, x in r.items()}
        for o in rows + out:
            f = o.get(col)
            if f:
                for j, x in r.items():
                    v = o.get(j, 0) - f * x
                    if v:
                        o[j] = v
                    else:
                        o.pop(j, None)
        out.append(r)
        piv.append(col)
    return out, piv, rows


def _div(x, k):
    q = Fraction(x) / k
    return int(q) if q.denominator == 1 else q


def from_state(slots, cons):
    """slots: list of Lin over symbols; cons over symbols -> Poly over slot indices"""
    n = len(slots)
    ss = sorted({s for l in slots for s, _ in l[1]})
    ix = {s: i for i, s in enumerate(ss)}
    m = len(ss)
    K = m + n
    # rows: [sym coefs | slot coefs | const] for  sum coef*sym - x_i + const = 0
    rows = []
    for i, l in enumerate(slots):
        r = {ix[s]: k for s, k in l[1]}
        r[m + i] = -1
        if l[0]:
            r[K] = l[0]
        rows.append(r)
    red, piv, rest = _rref_cols(rows, m)
    solved = {}
    for r, p in zip(red, piv):
        solved[ss[p]] = r
    eqs = []
    red2, piv2, _ = _rref_cols([r for r in rest if r], K)
    for r in red2:
        eqs.append(norm_q(r.get(K, 0), [(j - m, v) for j, v in r.items() if j < K]))
    ineqs = []
    leftover = []
    for c in cons:
        cc = c[0]
        terms = {}
        for s, k in c[1]:
            if s in solved:
                r = solved[s]
                cc -= k * r.get(K, 0)
                for j, v in r.items():
                    if j < K and not (j < m and ss[j] == s):
                        key = ('x', j - m) if j >= m else ('s', ss[j])
                        terms[key] = terms.get(key, 0) - k * v
            else:
                terms[('s', s)] = terms.get(('s', s), 0) + k
        l = norm_ge(norm_q(cc, [(k, v) for k, v in terms.items() if v]))
        if not l[1]:
            continue
        if any(k[0] == 's' for k, _ in l[1]):
            leftover.append(l)
        else:
            ineqs.append((l[0], tuple((k[1], v) for k, v in l[1])))
    # eliminate leftover symbols
    if leftover:
        lo = sorted({k for c in leftover for k, _ in c[1] if k[0] == 's'}, key=str)
        cur = list(dict.fromkeys(leftover))
        for s in lo:
            P, N, R = [], [], []
            for c in cur:
                k = dict(c[1]).get(s, 0)
                (P if k > 0 else N if k < 0 else R).append((k, c))
            new = [c for _, c in R]
            if len(P) * len(N) <= 40:
                for kp, p in P:
                    for kn, q in N:
                        new.append(norm_ge(add(scale(p, -kn), scale(q, kp))))
            cur = list(dict.fromkeys(new))
        for c in cur:
            if c[1] and not any(k[0] == 's' for k, _ in c[1]):
                ineqs.append((c[0], tuple((k[1], v) for k, v in c[1])))
    ineqs = [red_eq(c, eqs) for c in ineqs]
    best = {}
    for c in ineqs:
        c = norm_ge(c)
        if c[1] and (c[1] not in best or c[0] < best[c[1]]):
            best[c[1]] = c[0]
    ineqs = [(v, k) for k, v in best.items()]
    return Poly(n, eqs, ineqs)


def red_eq(c, eqs):
    """substitute each equality's leading (smallest-index) slot in c"""
    for e in eqs:
        if not e[1]:
            continue
        s, k = e[1][0]
        ck = 0
        for t, v in c[1]:
            if t == s:
                ck = v
                break
        if ck:
            # c*|k| - sign*ck*e
            a = scale(c, abs(k))
            b = scale(e, ck * (1 if k > 0 else -1))
            c = sub(a, b)
    return norm_ge(c)


def hull_eqs(slotsA, slotsB, n):
    """affine hull of the union of two parametrised affine sets"""
    def pd(slots):
        p = [l[0] for l in slots]
        ds = {}
        for i, l in enumerate(slots):
            for s, k in l[1]:
                ds.setdefault(s, {})[i] = k
        return p, list(ds.values())
    pa, da = pd(slotsA)
    pb, db = pd(slotsB)
    dirs = da + db + [{i: b - a for i, (a, b) in enumerate(zip(pa, pb)) if a != b}]
    red, piv, _ = _rref_cols([d for d in dirs if d], n)
    # equalities: vectors orthogonal to all directions
    ps = set(piv)
    rows = []
    for f in range(n):
        if f in ps:
            continue
        v = {f: 1}
        for r, p in zip(red, piv):
            if f in r:
                v[p] = -r[f]
        c = -sum(k * pa[j] for j, k in v.items())
        if c:
            v[n] = c
        rows.append(v)
    red2, piv2, _ = _rref_cols(rows, n)
    out = []
    for r in red2:
        out.append(norm_q(r.get(n, 0), [(j, v) for j, v in r.items() if j < n]))
    return out


def holds_eq(slots, e):
    """does the equality over slots hold identically for the parametrised slots?"""
    acc = const(e[0])
    for j, k in e[1]:
        acc = add(acc, scale(slots[j], k))
    return acc == ZERO


def at(slots, e):
    acc = const(e[0])
    for j, k in e[1]:
        acc = add(acc, scale(slots[j], k))
    return acc


def included(slots, cons, eqs, ineqs):
    for e in eqs:
        if not holds_eq(slots, e):
            v = at(slots, e)
            if not (entails(cons, v) and entails(cons, neg(v))):
                return False
    for c in ineqs:
        if not entails(cons, at(slots, c)):
            return False
    return True


def paircands(os, slots, consts):
    """difference candidates between the slots that changed and all others"""
    seen = {}
    for i, (x, y) in enumerate(zip(os, slots)):
        seen.setdefault((x, y), i)
    reps = list(seen.items())
    out = []
    for (x, y), i in reps:
        out += [sym(i), addc(sym(i), -1)]
        if x == y:
            continue
        for c in (([x[0]] if not x[1] else []) + ([y[0]] if not y[1] else []) if consts else []):
            out += [addc(sym(i), -c), addc(neg(sym(i)), c)]
        for (u, v), k in reps:
            if k == i or (u != v and k < i) or (u == v and not u[1]):
                continue
            d = sub(sym(k), sym(i))
            du, dv = sub(u, x), sub(v, y)
            if du == dv and not du[1]:
                continue
            cs = {0}
            if consts and not du[1]:
                cs.add(du[0])
            if consts and not dv[1]:
                cs.add(dv[0])
            for c in cs:
                out += [addc(d, -c), addc(neg(d), c)]
            out += [addc(d, -1), addc(neg(d), -1)]
    return out


def join(os, oc, eqs0, ineqs0, slots, cons, early):
    """(equalities, inequalities) over the slots that hold in both states"""
    eqs = hull_eqs(os, slots, len(slots))
    cand = list(ineqs0)
    if early:
        newp = from_state(slots, cons)
        cand += newp.ineqs
        # equalities lost by the hull survive as inequalities
        for e in list(eqs0) + newp.eqs:
            cand += [e, neg(e)]
    cand += paircands(os, slots, early)
    keep = []
    A, B = Oracle(cons), Oracle(oc)
    for c in dict.fromkeys(norm_ge(red_eq(c, eqs)) for c in cand):
        if not c[1]:
            continue
        if A.entails(at(slots, c)) and B.entails(at(os, c)):
            keep.append(c)
    # drop redundant ones, the complicated first; simple ones are kept unless other simple ones imply them
    keep.sort(key=lambda c: (-len(c[1]), -max(abs(k) for _, k in c[1])))
    simple = [c for c in keep if len(c[1]) <= 2]
    res = []
    for i, c in enumerate(keep):
        if len(c[1]) <= 2:
            if not entails([x for x in simple if x is not c], c):
                res.append(c)
            else:
                simple = [x for x in simple if x is not c]
        elif not entails(res + keep[i + 1:], c):
            res.append(c)
    return eqs, res


# ---------------------------------------------------------------- native kernel
def _native():
    import importlib.util
    import os
    import subprocess
    import sys
    import sysconfig
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, 'native', 'linx.cpp')
    out = os.environ.get('SA_CACHE') or os.path.join(os.path.dirname(here), '.cache')
    so = os.path.join(out, f'linx-{sys.version_info[0]}{sys.version_info[1]}.so')
    try:
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            os.makedirs(out, exist_ok=True)
            tmp = f'{so}.{os.getpid()}'
            subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-std=c++17', '-I' + sysconfig.get_paths()['include'], src, '-o', tmp],
                           check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, so)
        spec = importlib.util.spec_from_file_location('linx', so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    except Exception:
        return None


def _wrap(py, nat):
    def f(*a):
        try:
            return nat(*a)
        except OverflowError:
            return py(*a)
    f.py = py
    return f


NATIVE = _native()
if NATIVE is not None:
    infeasible = _wrap(infeasible, NATIVE.infeasible)
    included = _wrap(included, NATIVE.included)
    relevant = _wrap(relevant, NATIVE.relevant)
    join = _wrap(join, NATIVE.join)
    _py_entails = entails

    def entails(cons, g):
        if not g[1]:
            return g[0] >= 0
        try:
            return NATIVE.entails(cons, g)
        except OverflowError:
            return _py_entails(cons, g)
    _py_from_state = from_state

    def from_state(slots, cons):
        try:
            e, i = NATIVE.from_state(slots, cons)
            return Poly(len(slots), e, i)
        except OverflowError:
            return _py_from_state(slots, cons)
