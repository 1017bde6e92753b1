// Native kernel of the numeric domain (see ../lin.py, whose functions it mirrors): Fourier-Motzkin
// entailment, affine hull and weak polyhedral join.  Any overflow raises OverflowError, on which the
// caller falls back to the arbitrary-precision Python version.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <algorithm>
#include <cstdint>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef __int128 I;
struct Ovf {};
static inline I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I plus_(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I abs_(I a) { return a < 0 ? -a : a; }
static I gcd_(I a, I b) { a = abs_(a); b = abs_(b);
  if ((a >> 62) == 0 && (b >> 62) == 0) { uint64_t x = (uint64_t)a, y = (uint64_t)b; while (y) { uint64_t t = x % y; x = y; y = t; } return (I)x; }
  while (b) { I t = a % b; a = b; b = t; } return a; }
static I fdiv(I a, I b) { I q = a / b, r = a % b; if (r != 0 && ((r < 0) != (b < 0))) q--; return q; }

typedef std::pair<long, I> T;
struct Lin { I c = 0; std::vector<T> t; };
struct VH { size_t operator()(const std::vector<T> &v) const { size_t h = v.size(); for (auto &x : v) { h = h * 1000003u ^ (size_t)x.first; h = h * 1000003u ^ (size_t)x.second; } return h; } };
typedef std::unordered_map<std::vector<T>, I, VH> Map;

static Lin lcomb(const Lin &a, I ka, const Lin &b, I kb) {
  Lin r; r.c = plus_(mul(a.c, ka), mul(b.c, kb)); r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { r.t.push_back({a.t[i].first, mul(a.t[i].second, ka)}); i++; }
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, mul(b.t[j].second, kb)}); j++; }
    else { I v = plus_(mul(a.t[i].second, ka), mul(b.t[j].second, kb)); if (v) r.t.push_back({a.t[i].first, v}); i++; j++; }
  }
  return r;
}
static Lin negl(const Lin &a) { Lin r = a; r.c = -r.c; for (auto &x : r.t) x.second = -x.second; return r; }
static void norm(Lin &a) {
  if (a.t.empty()) return;
  I g = 0; for (auto &x : a.t) { g = gcd_(g, x.second); if (g == 1) return; }
  if (g > 1) { a.c = fdiv(a.c, g); for (auto &x : a.t) x.second /= g; }
}
static const size_t MAXC = 220;

// 1 contradictory, 0 not (or gave up).  w: model
struct Stage { long s; std::vector<std::pair<I, Lin>> P, N; };
static bool solve(const std::vector<Lin> &cons, int pick, bool want, std::unordered_map<long, I> *w, bool *gave) {
  Map cur;
  if (gave) *gave = false;
  for (auto c : cons) {
    norm(c);
    if (c.t.empty()) { if (c.c < 0) return true; continue; }
    auto it = cur.find(c.t);
    if (it == cur.end()) cur.emplace(c.t, c.c); else if (c.c < it->second) it->second = c.c;
  }
  std::vector<Stage> st;
  while (!cur.empty()) {
    std::unordered_map<long, std::pair<long, long>> cnt;
    for (auto &e : cur) for (auto &x : e.first) { auto &p = cnt[x.first]; if (x.second > 0) p.first++; else p.second++; }
    long bs = 0; long best = 0; bool any = false;
    for (auto &e : cnt) { long p = e.second.first, n = e.second.second, cost = p * n - p - n;
      if (!any || cost < best || (cost == best && e.first < bs)) { any = true; best = cost; bs = e.first; } }
    Stage g; g.s = bs; Map R;
    for (auto &e : cur) {
      I k = 0; for (auto &x : e.first) if (x.first == bs) { k = x.second; break; }
      if (k > 0) g.P.push_back({k, Lin{e.second, e.first}});
      else if (k < 0) g.N.push_back({-k, Lin{e.second, e.first}});
      else R.emplace(e.first, e.second);
    }
    for (auto &p : g.P) for (auto &n : g.N) {
      I gg = gcd_(p.first, n.first);
      Lin r = lcomb(p.second, n.first / gg, n.second, p.first / gg);
      norm(r);
      if (r.t.empty()) { if (r.c < 0) return true; continue; }
      auto it = R.find(r.t);
      if (it == R.end()) R.emplace(r.t, r.c); else if (r.c < it->second) it->second = r.c;
    }
    if (R.size() > MAXC) { if (gave) *gave = true; return false; }
    if (want) st.push_back(std::move(g));
    cur.swap(R);
  }
  if (!want) return false;
  for (size_t i = st.size(); i-- > 0;) {
    Stage &g = st[i]; bool hl = false, hh = false; I lo = 0, hi = 0;
    auto val = [&](const Lin &l) { I v = l.c; for (auto &x : l.t) if (x.first != g.s) { auto f = w->find(x.first); if (f != w->end()) v = plus_(v, mul(x.second, f->second)); } return v; };
    for (auto &p : g.P) { I b = -fdiv(val(p.second), p.first); if (!hl || b > lo) { lo = b; hl = true; } }
    for (auto &p : g.N) { I b = fdiv(val(p.second), p.first); if (!hh || b < hi) { hi = b; hh = true; } }
    I v;
    if (!hl && !hh) v = pick == 0 ? 0 : 1000003;
    else if (!hl) v = hi;
    else if (!hh) v = pick == 0 ? lo : lo + 1000;
    else if (lo > hi) { w->clear(); if (gave) *gave = true; return false; }
    else v = pick == 0 ? lo : pick == 1 ? hi : fdiv(lo + hi, 2);
    (*w)[g.s] = v;
  }
  return false;
}

static void relevant(const std::vector<Lin> &cons, const Lin &goal, std::vector<char> &sel) {
  std::unordered_set<long> todo; for (auto &x : goal.t) todo.insert(x.first);
  sel.assign(cons.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!sel[i]) {
      bool hit = false; for (auto &x : cons[i].t) if (todo.count(x.first)) { hit = true; break; }
      if (hit) { sel[i] = 1; ch = true; for (auto &x : cons[i].t) todo.insert(x.first); } } }
}
static bool entails(const std::vector<Lin> &cons, Lin g) {
  if (g.t.empty()) return g.c >= 0;
  std::vector<char> sel; relevant(cons, g, sel); norm(g);
  std::vector<Lin> r;
  for (size_t i = 0; i < cons.size(); i++) if (sel[i]) { if (cons[i].t == g.t && cons[i].c <= g.c) return true; r.push_back(cons[i]); }
  Lin n = negl(g); n.c -= 1; r.push_back(n);
  return solve(r, 0, false, nullptr, nullptr);
}
struct Oracle {
  const std::vector<Lin> &cons; std::vector<std::unordered_map<long, I>> ws; std::unordered_map<long, I> base;
  Oracle(const std::vector<Lin> &c) : cons(c) {
    bool gv; std::unordered_map<long, I> b; if (!solve(c, 0, true, &b, &gv) && !gv && !b.empty()) { base = b; ws.push_back(b);
      std::unordered_map<long, I> h; if (!solve(c, 1, true, &h, &gv) && !gv && !h.empty()) ws.push_back(h); } }
  bool ent(Lin g) {
    if (g.t.empty()) return g.c >= 0;
    for (auto &w : ws) { I v = g.c; for (auto &x : g.t) { auto f = w.find(x.first); I y = 0; if (f != w.end()) y = f->second; else { auto b = base.find(x.first); if (b != base.end()) y = b->second; } v = plus_(v, mul(x.second, y)); } if (v < 0) return false; }
    std::vector<char> sel; relevant(cons, g, sel); norm(g);
    std::vector<Lin> r;
    for (size_t i = 0; i < cons.size(); i++) if (sel[i]) { if (cons[i].t == g.t && cons[i].c <= g.c) return true; r.push_back(cons[i]); }
    Lin n = negl(g); n.c -= 1; r.push_back(n);
    std::unordered_map<long, I> w; bool gv;
    bool bad = solve(r, 0, true, &w, &gv);
    if (!bad && !gv && !w.empty()) { ws.insert(ws.begin(), w); if (ws.size() > 12) ws.pop_back(); }
    return bad;
  }
};

// ---- rational elimination on sparse integer rows (each row known up to a non-zero factor)
typedef std::vector<I> Row;
static void rnorm(Row &r) { I g = 0; for (auto x : r) if (x) { g = gcd_(g, x); if (g == 1) return; } if (g > 1) for (auto &x : r) x /= g; }
static void rref(std::vector<Row> &rows, size_t ncols, std::vector<Row> &out, std::vector<size_t> &piv) {
  for (size_t col = 0; col < ncols; col++) {
    long p = -1; size_t bl = 0;
    for (size_t i = 0; i < rows.size(); i++) if (rows[i][col]) { size_t l = 0; for (auto x : rows[i]) if (x) l++; if (p < 0 || l < bl) { p = i; bl = l; } }
    if (p < 0) continue;
    Row r = rows[p]; rows.erase(rows.begin() + p);
    if (r[col] < 0) for (auto &x : r) x = -x;
    auto elim = [&](Row &o) { I f = o[col]; if (!f) return; I g = gcd_(f, r[col]); I a = r[col] / g, b = f / g;
      for (size_t j = 0; j < o.size(); j++) { if (a != 1 && o[j]) o[j] = mul(o[j], a); if (r[j]) o[j] = plus_(o[j], -mul(r[j], b)); } rnorm(o); };
    for (auto &o : rows) elim(o);
    for (auto &o : out) elim(o);
    out.push_back(r); piv.push_back(col);
  }
}
static Lin rowlin(const Row &r, size_t from, size_t n, size_t cix) { Lin l; l.c = r[cix]; for (size_t j = 0; j < n; j++) if (r[from + j]) l.t.push_back({(long)j, r[from + j]});
  // divide by the gcd of everything (equalities: exact)
  I g = abs_(l.c); for (auto &x : l.t) g = gcd_(g, x.second); if (g > 1) { l.c /= g; for (auto &x : l.t) x.second /= g; } return l; }
static Lin red_eq(Lin c, const std::vector<Lin> &eqs) {
  for (auto &e : eqs) { if (e.t.empty()) continue; long s = e.t[0].first; I k = e.t[0].second, ck = 0;
    for (auto &x : c.t) if (x.first == s) { ck = x.second; break; }
    if (ck) c = lcomb(c, abs_(k), e, -mul(ck, k > 0 ? 1 : -1)); }
  norm(c); return c;
}
static Lin at(const std::vector<Lin> &slots, const Lin &e) { Lin a; a.c = e.c; for (auto &x : e.t) a = lcomb(a, 1, slots[x.first], x.second); return a; }

static void from_state(const std::vector<Lin> &slots, const std::vector<Lin> &cons, std::vector<Lin> &eqs, std::vector<Lin> &ineqs) {
  size_t n = slots.size(); std::vector<long> ss;
  for (auto &l : slots) for (auto &x : l.t) ss.push_back(x.first);
  std::sort(ss.begin(), ss.end()); ss.erase(std::unique(ss.begin(), ss.end()), ss.end());
  std::unordered_map<long, size_t> ix; for (size_t i = 0; i < ss.size(); i++) ix[ss[i]] = i;
  size_t m = ss.size(), K = m + n; std::vector<Row> rows;
  for (size_t i = 0; i < n; i++) { Row r(K + 1, 0); for (auto &x : slots[i].t) r[ix[x.first]] = x.second; r[m + i] = -1; r[K] = slots[i].c; rows.push_back(r); }
  std::vector<Row> red; std::vector<size_t> piv; rref(rows, m, red, piv);
  std::vector<Row> rest; for (auto &r : rows) { bool nz = false; for (auto x : r) if (x) nz = true; if (nz) rest.push_back(r); }
  std::vector<Row> red2; std::vector<size_t> piv2; rref(rest, K, red2, piv2);
  for (auto &r : red2) eqs.push_back(rowlin(r, m, n, K));
  std::unordered_map<long, size_t> solved; for (size_t i = 0; i < red.size(); i++) solved[ss[piv[i]]] = i;
  // slot variables: 0..n-1; leftover symbols: n + index into `left`
  std::vector<long> left; std::unordered_map<long, long> lix; std::vector<Lin> lo;
  auto leftid = [&](long s) { auto f = lix.find(s); if (f != lix.end()) return f->second; long id = (long)n + (long)left.size(); left.push_back(s); lix[s] = id; return id; };
  for (auto &c : cons) {
    Lin l; l.c = c.c;
    for (auto &x : c.t) {
      auto f = solved.find(x.first);
      if (f == solved.end()) { Lin y; y.t.push_back({leftid(x.first), x.second}); // keep the running scale in mind
        l = lcomb(l, 1, y, 1); }
      else {
        Row &r = red[f->second]; size_t p = piv[f->second]; I k = r[p];   // k*s + rest = 0  ->  s = -rest/k
        Lin y; y.c = -r[K]; std::vector<T> tt;
        for (size_t j = 0; j < K; j++) if (j != p && r[j]) tt.push_back({j >= m ? (long)(j - m) : leftid(ss[j]), -r[j]});
        std::sort(tt.begin(), tt.end()); y.t = tt;
        // l (over scale sc) + x.second * y / k
        if (k == 1) l = lcomb(l, 1, y, x.second);
        else { // scale the whole constraint by k (k > 0)
          // remaining terms of c must be scaled too: do it by scaling c's tail lazily
          Lin cc = c; // recompute from scratch with a common multiple
          I M = 1; for (auto &z : c.t) { auto g = solved.find(z.first); if (g != solved.end()) { I kk = red[g->second][piv[g->second]]; M = mul(M / gcd_(M, kk), kk); } }
          Lin a; a.c = mul(c.c, M);
          for (auto &z : c.t) { auto g = solved.find(z.first);
            if (g == solved.end()) { Lin q; q.t.push_back({leftid(z.first), mul(z.second, M)}); a = lcomb(a, 1, q, 1); }
            else { Row &rr = red[g->second]; size_t pp = piv[g->second]; I kk = rr[pp]; Lin q; q.c = -rr[K]; std::vector<T> t2;
              for (size_t j = 0; j < K; j++) if (j != pp && rr[j]) t2.push_back({j >= m ? (long)(j - m) : leftid(ss[j]), -rr[j]});
              std::sort(t2.begin(), t2.end()); q.t = t2; a = lcomb(a, 1, q, mul(z.second, M / kk)); } }
          l = a; goto done; }
      }
    }
  done:
    norm(l); if (l.t.empty()) continue;
    bool has = false; for (auto &x : l.t) if (x.first >= (long)n) has = true;
    if (has) lo.push_back(l); else ineqs.push_back(l);
  }
  if (!lo.empty()) {
    std::vector<Lin> cur = lo;
    for (size_t q = 0; q < left.size(); q++) { long s = (long)n + (long)q; std::vector<std::pair<I, Lin>> P, N; std::vector<Lin> nw;
      for (auto &c : cur) { I k = 0; for (auto &x : c.t) if (x.first == s) k = x.second; if (k > 0) P.push_back({k, c}); else if (k < 0) N.push_back({k, c}); else nw.push_back(c); }
      if (P.size() * N.size() <= 40) for (auto &p : P) for (auto &r : N) { Lin z = lcomb(p.second, -r.first, r.second, p.first); norm(z); nw.push_back(z); }
      Map seen; std::vector<Lin> dd; for (auto &c : nw) { auto it = seen.find(c.t); if (it == seen.end() || c.c < it->second) { if (it == seen.end()) seen.emplace(c.t, c.c); else it->second = c.c; } }
      std::unordered_set<size_t> dummy; (void)dummy;
      for (auto &c : nw) { auto it = seen.find(c.t); if (it != seen.end() && it->second == c.c) { dd.push_back(c); seen.erase(it); } }
      cur.swap(dd); }
    for (auto &c : cur) { bool has = false; for (auto &x : c.t) if (x.first >= (long)n) has = true; if (!c.t.empty() && !has) ineqs.push_back(c); }
  }
  Map best; std::vector<std::vector<T>> order;
  for (auto &c : ineqs) { Lin r = red_eq(c, eqs); if (r.t.empty()) continue; auto it = best.find(r.t); if (it == best.end()) { best.emplace(r.t, r.c); order.push_back(r.t); } else if (r.c < it->second) it->second = r.c; }
  ineqs.clear(); for (auto &k : order) { Lin l; l.c = best[k]; l.t = k; ineqs.push_back(l); }
}

static void hull(const std::vector<Lin> &A, const std::vector<Lin> &B, std::vector<Lin> &out) {
  size_t n = A.size(); std::vector<Row> dirs;
  auto add = [&](const std::vector<Lin> &S) { std::unordered_map<long, size_t> ix; size_t b0 = dirs.size();
    for (size_t i = 0; i < n; i++) for (auto &x : S[i].t) { auto f = ix.find(x.first); size_t q; if (f == ix.end()) { q = dirs.size() - b0; ix[x.first] = q; dirs.push_back(Row(n, 0)); } else q = f->second; dirs[b0 + q][i] = x.second; } };
  add(A); add(B);
  Row d(n, 0); bool nz = false; for (size_t i = 0; i < n; i++) { d[i] = B[i].c - A[i].c; if (d[i]) nz = true; } if (nz) dirs.push_back(d);
  for (auto &r : dirs) rnorm(r);
  std::vector<Row> red; std::vector<size_t> piv; rref(dirs, n, red, piv);
  std::vector<char> isp(n, 0); for (auto p : piv) isp[p] = 1;
  std::vector<Row> rows;
  for (size_t f = 0; f < n; f++) { if (isp[f]) continue;
    I M = 1; for (size_t i = 0; i < red.size(); i++) if (red[i][f]) { I k = red[i][piv[i]]; M = mul(M / gcd_(M, k), k); }
    Row v(n + 1, 0); v[f] = M; for (size_t i = 0; i < red.size(); i++) if (red[i][f]) v[piv[i]] = -mul(red[i][f], M / red[i][piv[i]]);
    I c = 0; for (size_t j = 0; j < n; j++) if (v[j]) c = plus_(c, -mul(v[j], A[j].c)); v[n] = c; rnorm(v); rows.push_back(v); }
  std::vector<Row> red2; std::vector<size_t> piv2; rref(rows, n, red2, piv2);
  for (auto &r : red2) out.push_back(rowlin(r, 0, n, n));
}

// ---- Python glue
static I toI(PyObject *o) {
  int ov; long long v = PyLong_AsLongLongAndOverflow(o, &ov);
  if (!ov) { if (v == -1 && PyErr_Occurred()) throw Ovf(); return v; }
  unsigned char buf[16]; if (_PyLong_AsByteArray((PyLongObject *)o, buf, 16, 1, 1) < 0) { PyErr_Clear(); throw Ovf(); }
  I r = 0; memcpy(&r, buf, 16); return r;
}
static PyObject *fromI(I v) { if (v <= (I)INT64_MAX && v >= (I)INT64_MIN) return PyLong_FromLongLong((long long)v); return _PyLong_FromByteArray((unsigned char *)&v, 16, 1, 1); }
static Lin toLin(PyObject *o) { Lin l; l.c = toI(PyTuple_GET_ITEM(o, 0)); PyObject *t = PyTuple_GET_ITEM(o, 1); Py_ssize_t n = PyTuple_GET_SIZE(t); l.t.reserve(n);
  for (Py_ssize_t i = 0; i < n; i++) { PyObject *p = PyTuple_GET_ITEM(t, i); l.t.push_back({PyLong_AsLong(PyTuple_GET_ITEM(p, 0)), toI(PyTuple_GET_ITEM(p, 1))}); } return l; }
static PyObject *fromLin(const Lin &l) { PyObject *t = PyTuple_New(l.t.size()); for (size_t i = 0; i < l.t.size(); i++) { PyObject *p = PyTuple_New(2); PyTuple_SET_ITEM(p, 0, PyLong_FromLong(l.t[i].first)); PyTuple_SET_ITEM(p, 1, fromI(l.t[i].second)); PyTuple_SET_ITEM(t, i, p); }
  PyObject *r = PyTuple_New(2); PyTuple_SET_ITEM(r, 0, fromI(l.c)); PyTuple_SET_ITEM(r, 1, t); return r; }
static std::vector<Lin> toVec(PyObject *o) { std::vector<Lin> v; PyObject *f = PySequence_Fast(o, "seq"); if (!f) throw Ovf(); Py_ssize_t n = PySequence_Fast_GET_SIZE(f); v.reserve(n); for (Py_ssize_t i = 0; i < n; i++) v.push_back(toLin(PySequence_Fast_GET_ITEM(f, i))); Py_DECREF(f); return v; }
static PyObject *fromVec(const std::vector<Lin> &v) { PyObject *l = PyList_New(v.size()); for (size_t i = 0; i < v.size(); i++) PyList_SET_ITEM(l, i, fromLin(v[i])); return l; }
#define OVF catch (Ovf &) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_OverflowError, "linx"); return nullptr; }

static PyObject *p_infeasible(PyObject *, PyObject *a) { try { return PyBool_FromLong(solve(toVec(PyTuple_GET_ITEM(a, 0)), 0, false, nullptr, nullptr)); } OVF }
static PyObject *p_entails(PyObject *, PyObject *a) { try { return PyBool_FromLong(entails(toVec(PyTuple_GET_ITEM(a, 0)), toLin(PyTuple_GET_ITEM(a, 1)))); } OVF }
static PyObject *p_from_state(PyObject *, PyObject *a) { try { std::vector<Lin> e, i; from_state(toVec(PyTuple_GET_ITEM(a, 0)), toVec(PyTuple_GET_ITEM(a, 1)), e, i); PyObject *x = fromVec(e), *y = fromVec(i); PyObject *r = PyTuple_Pack(2, x, y); Py_DECREF(x); Py_DECREF(y); return r; } OVF }
// included(slots, cons, eqs, ineqs)
static PyObject *p_included(PyObject *, PyObject *a) { try {
  auto s = toVec(PyTuple_GET_ITEM(a, 0)), c = toVec(PyTuple_GET_ITEM(a, 1)), e = toVec(PyTuple_GET_ITEM(a, 2)), q = toVec(PyTuple_GET_ITEM(a, 3));
  for (auto &x : e) { Lin v = at(s, x); if (v.t.empty() && v.c == 0) continue; if (!(entails(c, v) && entails(c, negl(v)))) Py_RETURN_FALSE; }
  for (auto &x : q) if (!entails(c, at(s, x))) Py_RETURN_FALSE;
  Py_RETURN_TRUE; } OVF }
// relevant(cons, syms)
static PyObject *p_relevant(PyObject *, PyObject *a) { try {
  PyObject *co = PyTuple_GET_ITEM(a, 0); auto c = toVec(co); Lin g; PyObject *f = PySequence_Fast(PyTuple_GET_ITEM(a, 1), "seq"); for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(f); i++) g.t.push_back({PyLong_AsLong(PySequence_Fast_GET_ITEM(f, i)), 1}); Py_DECREF(f);
  std::vector<char> sel; relevant(c, g, sel); PyObject *l = PyList_New(0); PyObject *cf = PySequence_Fast(co, "seq"); for (size_t i = 0; i < c.size(); i++) if (sel[i]) PyList_Append(l, PySequence_Fast_GET_ITEM(cf, i)); Py_DECREF(cf); return l; } OVF }

// join(os, oc, eqs0, ineqs0, slots, cons, early) -> (eqs, ineqs)
static PyObject *p_join(PyObject *, PyObject *a) { try {
  auto os = toVec(PyTuple_GET_ITEM(a, 0)), oc = toVec(PyTuple_GET_ITEM(a, 1)), e0 = toVec(PyTuple_GET_ITEM(a, 2)), i0 = toVec(PyTuple_GET_ITEM(a, 3)), sl = toVec(PyTuple_GET_ITEM(a, 4)), nc = toVec(PyTuple_GET_ITEM(a, 5));
  bool early = PyObject_IsTrue(PyTuple_GET_ITEM(a, 6)); size_t n = sl.size();
  std::vector<Lin> eqs; hull(os, sl, eqs);
  std::vector<Lin> cand = i0;
  if (early) { std::vector<Lin> ne, ni; from_state(sl, nc, ne, ni); cand.insert(cand.end(), ni.begin(), ni.end());
    for (auto &e : e0) { cand.push_back(e); cand.push_back(negl(e)); } for (auto &e : ne) { cand.push_back(e); cand.push_back(negl(e)); } }
  // difference candidates
  std::vector<size_t> reps;
  for (size_t i = 0; i < n; i++) { bool dup = false; for (auto r : reps) if (os[r].c == os[i].c && sl[r].c == sl[i].c && os[r].t == os[i].t && sl[r].t == sl[i].t) { dup = true; break; } if (!dup) reps.push_back(i); }
  auto S = [](size_t i) { Lin l; l.t.push_back({(long)i, 1}); return l; };
  auto same = [](const Lin &x, const Lin &y) { return x.c == y.c && x.t == y.t; };
  for (auto i : reps) {
    const Lin &x = os[i], &y = sl[i]; cand.push_back(S(i)); { Lin p = S(i); p.c = -1; cand.push_back(p); } if (same(x, y)) continue;
    if (early) for (int w = 0; w < 2; w++) { const Lin &z = w ? y : x; if (z.t.empty()) { Lin p = S(i); p.c = -z.c; cand.push_back(p); cand.push_back(negl(p)); } }
    for (auto k : reps) { const Lin &u = os[k], &v = sl[k]; bool uv = same(u, v); if (k == i || (!uv && k < i) || (uv && u.t.empty())) continue;
      Lin d; if (k < i) { d.t = {{(long)k, 1}, {(long)i, -1}}; } else { d.t = {{(long)i, -1}, {(long)k, 1}}; }
      Lin du = lcomb(u, 1, x, -1), dv = lcomb(v, 1, y, -1); if (same(du, dv) && du.t.empty()) continue;
      std::vector<I> cs = {0}; if (early && du.t.empty() && du.c) cs.push_back(du.c); if (early && dv.t.empty() && dv.c && dv.c != du.c) cs.push_back(dv.c);
      for (auto c : cs) { Lin p = d; p.c = -c; cand.push_back(p); cand.push_back(negl(p)); }
      { Lin p = d; p.c = -1; cand.push_back(p); p = negl(d); p.c = -1; cand.push_back(p); } } }
  Oracle A(nc), B(oc); std::vector<Lin> keep; std::unordered_map<std::vector<T>, std::vector<I>, VH> seen;
  for (auto &c : cand) { Lin r = red_eq(c, eqs); if (r.t.empty()) continue; auto &z = seen[r.t]; if (std::find(z.begin(), z.end(), r.c) != z.end()) continue; z.push_back(r.c);
    if (A.ent(at(sl, r)) && B.ent(at(os, r))) keep.push_back(r); }
  std::stable_sort(keep.begin(), keep.end(), [](const Lin &x, const Lin &y) { if (x.t.size() != y.t.size()) return x.t.size() > y.t.size(); I mx = 0, my = 0; for (auto &t : x.t) mx = std::max(mx, abs_(t.second)); for (auto &t : y.t) my = std::max(my, abs_(t.second)); return mx > my; });
  std::vector<char> live(keep.size(), 1), simple(keep.size(), 0); std::vector<Lin> res;
  for (size_t i = 0; i < keep.size(); i++) simple[i] = keep[i].t.size() <= 2;
  for (size_t i = 0; i < keep.size(); i++) {
    std::vector<Lin> h;
    if (keep[i].t.size() <= 2) { for (size_t j = 0; j < keep.size(); j++) if (j != i && simple[j]) h.push_back(keep[j]);
      if (!entails(h, keep[i])) res.push_back(keep[i]); else simple[i] = 0; }
    else { h = res; h.insert(h.end(), keep.begin() + i + 1, keep.end()); if (!entails(h, keep[i])) res.push_back(keep[i]); } }
  PyObject *x = fromVec(eqs), *y = fromVec(res); PyObject *r = PyTuple_Pack(2, x, y); Py_DECREF(x); Py_DECREF(y); return r; } OVF }

static PyMethodDef M[] = {{"infeasible", p_infeasible, METH_VARARGS, ""}, {"entails", p_entails, METH_VARARGS, ""}, {"from_state", p_from_state, METH_VARARGS, ""}, {"included", p_included, METH_VARARGS, ""}, {"relevant", p_relevant, METH_VARARGS, ""}, {"join", p_join, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "linx", nullptr, -1, M, nullptr, nullptr, nullptr, nullptr};
PyMODINIT_FUNC PyInit_linx(void) { return PyModule_Create(&D); }
