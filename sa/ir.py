"""Loads the JSON written by /verif/driver into one program: types, ADTs, bodies, impls."""
import json
import os
import re

LIBS = ["protosocket", "protosocket_rpc", "protosocket_server", "protosocket_prost",
        "protosocket_messagepack"]


class Body:
    __slots__ = ("id", "p", "argc", "locals", "bbs", "names", "g", "spread", "sp", "ext", "dk",
                 "parent", "self", "im", "tr", "n", "pub", "crate", "loops", "npred", "wto", "live", "promoted_of",
                 "sfile")

    def __repr__(self):
        return f"<{self.id}>"


def strip_generics(p):
    """std::vec::Vec::<T, A>::len -> std::vec::Vec::len ; keeps <X as Y>::z and <impl [T]>"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


# where the types and traits the analyses speak about live; if one has moved to another module, the dump is read as if it had not
CANON = {'protosocket': ['connection::Connection', 'types::DeserializeError', 'types::ReactorStatus', 'types::Serializer', 'types::Deserializer',
                         'types::MessageReactor', 'types::ConnectionBindings'],
         'protosocket_rpc': ['message::ProtosocketControlCode', 'message::Message', 'error::Error']}


def canonical(texts):
    for crate, paths in CANON.items():
        if crate not in texts:
            continue
        d = json.loads(texts[crate])
        have = {i[len(crate) + 2:] for i, a in d["adts"] if i.startswith(crate + '::')} | {t["p"] for t in d["traits"]}
        for p in paths:
            last = p.split('::')[-1]
            c = [x for x in have if x.split('::')[-1] == last]
            if p in have or len(c) != 1:
                continue
            old = c[0]
            for k in texts:
                texts[k] = re.sub(r'\b' + crate + '::' + re.escape(old) + r'(?![\w])', crate + '::' + p, texts[k])
            texts[crate] = re.sub(r'(?<![\w:])' + re.escape(old) + r'(?=[:"<>,)])', p, texts[crate])


class Prog:
    def __init__(self):
        self.bodies = {}
        self.adts = {}
        self.promoted = {}
        self.impls = []
        self.traits = {}
        self.files = []
        self.by_crate = {}

    def load_dir(self, d, crates=None):
        texts = {f[:-5]: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith(".json")}
        canonical(texts)
        for c in texts:
            if crates is None or c in crates:
                self.load_text(texts[c])
        return self

    def load(self, path):
        self.load_text(open(path).read())

    def load_text(self, text):
        d = json.loads(text)
        raw = d["tys"]
        memo = {}

        def ty(i):
            if i in memo:
                return memo[i]
            if isinstance(i, str):
                return ("const", i)
            t = raw[i]
            k = t["k"]
            memo[i] = ("rec", i)
            if k == "adt":
                r = ("adt", t["id"], tuple(ty(x) for x in t["a"]))
            elif k == "ref":
                r = ("ref", bool(t["m"]), ty(t["t"]))
            elif k == "ptr":
                r = ("ptr", bool(t["m"]), ty(t["t"]))
            elif k == "slice":
                r = ("slice", ty(t["t"]))
            elif k == "array":
                r = ("array", ty(t["t"]), t["n"])
            elif k == "tuple":
                r = ("tuple", tuple(ty(x) for x in t["a"]))
            elif k == "int":
                r = ("int", t["n"])
            elif k == "param":
                r = ("param", t["n"])
            elif k == "alias":
                r = ("alias", t["p"], tuple(ty(x) for x in t["a"]), t["s"])
            elif k in ("closure", "coroutine"):
                r = (k, t["id"])
            elif k == "fndef":
                r = ("fndef", t["id"])
            elif k in ("dyn", "other"):
                r = (k, t["s"])
            else:
                r = (k,)
            memo[i] = r
            return r

        tys = [ty(i) for i in range(len(raw))]
        crate = d["crate"]
        self.by_crate[crate] = []

        def conv_place(p):
            pr = []
            for e in p["p"]:
                if e[0] == "*":
                    pr.append(("*", tys[e[1]]))
                elif e[0] == ".":
                    pr.append((".", e[1], tys[e[2]], tys[e[3]]))
                else:
                    pr.append(tuple(e))
            return (p["l"], tuple(pr), tys[p["t"]])

        def conv_fn(f):
            o = dict(f)
            o["a"] = tuple(ty(x) for x in f.get("a", []))
            o["sn"] = strip_generics(f["p"])
            return o

        def conv_op(o):
            if o[0] in ("cp", "mv"):
                return (o[0], conv_place(o[1]))
            if o[0] == "k":
                c = dict(o[1])
                if "t" in c:
                    c["t"] = tys[c["t"]]
                if "fn" in c:
                    c["fn"] = conv_fn(c["fn"])
                return ("k", c)
            return tuple(o)

        def conv_rv(r):
            k = r[0]
            if k == "use":
                return ("use", conv_op(r[1]))
            if k == "rep":
                return ("rep", conv_op(r[1]), r[2])
            if k == "ref":
                return ("ref", r[1], conv_place(r[2]))
            if k == "cast":
                return ("cast", r[1], conv_op(r[2]), tys[r[3]])
            if k == "bin":
                return ("bin", r[1], conv_op(r[2]), conv_op(r[3]))
            if k == "un":
                return ("un", r[1], conv_op(r[2]))
            if k == "discr":
                return ("discr", conv_place(r[1]))
            if k == "agg":
                return ("agg", tuple(r[1]), tuple(conv_op(x) for x in r[2]))
            return tuple(r)

        def conv_body(b, reg=True):
            B = Body()
            B.id, B.p, B.argc = b["id"], b["p"], b["argc"]
            B.locals = [tys[x] for x in b["locals"]]
            B.names = {}
            for n, pl in b["names"]:
                if not pl["p"]:
                    B.names[pl["l"]] = n
            B.g = b.get("g", [])
            B.spread = b.get("spread")
            B.sp, B.ext, B.dk = b["sp"], b["ext"], b["dk"]
            B.parent = b.get("parent")
            B.self = tys[b["self"]] if "self" in b else None
            B.im, B.tr, B.n, B.pub = b.get("im"), b.get("tr"), b.get("n"), b.get("pub")
            B.crate = crate
            B.sfile = B.sp.rsplit(":", 1)[0]
            bbs = []
            for ss, t in b["bbs"]:
                out = []
                for s in ss:
                    if s[0] == "=":
                        out.append(("=", conv_place(s[1]), conv_rv(s[2]), s[3]))
                    elif s[0] == "sd":
                        out.append(("sd", conv_place(s[1]), s[2]))
                    else:
                        out.append(tuple(s))
                t = dict(t)
                k = t["k"]
                if k == "switch":
                    t["d"] = conv_op(t["d"])
                    t["dt"] = tys[t["dt"]]
                elif k == "drop":
                    t["p"] = conv_place(t["p"])
                elif k == "call":
                    t["f"] = conv_op(t["f"])
                    t["a"] = [conv_op(x) for x in t["a"]]
                    t["d"] = conv_place(t["d"])
                elif k == "assert":
                    t["c"] = conv_op(t["c"])
                    t["ops"] = [conv_op(x) for x in t["ops"]]
                elif k == "yield":
                    t["ra"] = conv_place(t["ra"])
                bbs.append((out, t))
            B.bbs = bbs
            analyse(B)
            return B

        for b in d["bodies"]:
            B = conv_body(b)
            self.bodies[B.id] = B
            self.by_crate[crate].append(B)
        for b in d["ext"]:
            if b["id"] not in self.bodies:
                self.bodies[b["id"]] = conv_body(b)
        for of, ix, b in d["promoted"]:
            self.promoted[(of, ix)] = conv_body(b)
        for i, a in d["adts"]:
            vs = []
            for v in a["v"]:
                vs.append((v["n"], v["d"], [(f["n"], tys[f["t"]]) for f in v["f"]]))
            e = {"p": a["p"], "k": a["k"], "v": vs, "dtor": a["dtor"], "g": [x[0] for x in a["g"] if x[1] != "Lifetime"],
                 "local": a["local"], "sp": a["sp"]}
            if i not in self.adts or a["local"]:
                if i in self.adts and self.adts[i]["local"] and not a["local"]:
                    continue
                self.adts[i] = e
        for im in d["impls"]:
            items = {}
            for it in im["items"]:
                items[(it[0], it[1])] = tys[it[2]] if it[0] == "type" else it[2]
            self.impls.append({"tr": im["tr"], "self": tys[im["self"]], "items": items, "sp": im["sp"],
                               "a": tuple(ty(x) for x in im["a"]), "crate": crate})
        for t in d["traits"]:
            self.traits[crate + "|" + t["p"]] = t


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["v"]] + [t["o"]]
    if k in ("drop", "assert"):
        return [t["t"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    if k == "yield":
        return [t["t"]] + ([t["dr"]] if t.get("dr") is not None else [])
    return []


def _place_uses(p, use):
    for e in p[1]:
        if e[0] == "[":
            use.add(e[1])


def _op_use(o, use):
    if o[0] in ("cp", "mv"):
        use.add(o[1][0])
        _place_uses(o[1], use)


def analyse(B):
    n = len(B.bbs)
    B.npred = [0] * n
    for ss, t in B.bbs:
        for s in succs(t):
            B.npred[s] += 1
    # loop heads by DFS back edges
    color = [0] * n
    loops = set()
    st = [(0, iter(succs(B.bbs[0][1])))]
    color[0] = 1
    while st:
        u, it = st[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                st.append((v, iter(succs(B.bbs[v][1]))))
                break
            elif color[v] == 1:
                loops.add(v)
        else:
            color[u] = 2
            st.pop()
    B.loops = loops
    B.wto = wto(B)
    # liveness of locals at block entry
    gen, kill = [], []
    for ss, t in B.bbs:
        g, k = set(), set()

        def use_def(use, dfn):
            for u in use:
                if u not in k:
                    g.add(u)
            k.update(dfn)
        for s in ss:
            use, dfn = set(), set()
            if s[0] == "=":
                pl, rv = s[1], s[2]
                if pl[1]:
                    use.add(pl[0])
                    _place_uses(pl, use)
                else:
                    dfn.add(pl[0])
                kk = rv[0]
                if kk in ("use",):
                    _op_use(rv[1], use)
                elif kk == "rep":
                    _op_use(rv[1], use)
                elif kk == "ref":
                    use.add(rv[2][0])
                    _place_uses(rv[2], use)
                elif kk == "cast":
                    _op_use(rv[2], use)
                elif kk == "bin":
                    _op_use(rv[2], use)
                    _op_use(rv[3], use)
                elif kk == "un":
                    _op_use(rv[2], use)
                elif kk == "discr":
                    use.add(rv[1][0])
                    _place_uses(rv[1], use)
                elif kk == "agg":
                    for o in rv[2]:
                        _op_use(o, use)
            elif s[0] == "sd":
                use.add(s[1][0])
            elif s[0] in ("dead", "live"):
                dfn.add(s[1])
            use_def(use, dfn)
        use, dfn = set(), set()
        kk = t["k"]
        if kk == "switch":
            _op_use(t["d"], use)
        elif kk == "drop":
            use.add(t["p"][0])
        elif kk == "call":
            _op_use(t["f"], use)
            for o in t["a"]:
                _op_use(o, use)
            if t["d"][1]:
                use.add(t["d"][0])
            else:
                dfn.add(t["d"][0])
        elif kk == "assert":
            _op_use(t["c"], use)
            for o in t["ops"]:
                _op_use(o, use)
        elif kk == "ret":
            use.add(0)
        elif kk == "yield":
            dfn.add(t["ra"][0])
        use_def(use, dfn)
        gen.append(g)
        kill.append(k)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            out = set()
            for s in succs(B.bbs[i][1]):
                out |= live[s]
            new = gen[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                changed = True
    B.live = [tuple(sorted(x)) for x in live]


def wto(B):
    """position of each block in a weak topological order (Bourdoncle)"""
    n = len(B.bbs)
    sc = [sorted(set(succs(t))) for _, t in B.bbs]
    out = []

    def order(nodes, entry):
        """append nodes (a set) in weak topological order starting at entry"""
        # Tarjan over the subgraph
        idx, low, onst, stack, comps = {}, {}, set(), [], []
        cnt = [0]

        def visit(r):
            work = [(r, iter(sc[r]))]
            idx[r] = low[r] = cnt[0]
            cnt[0] += 1
            stack.append(r)
            onst.add(r)
            while work:
                u, it = work[-1]
                for v in it:
                    if v not in nodes:
                        continue
                    if v not in idx:
                        idx[v] = low[v] = cnt[0]
                        cnt[0] += 1
                        stack.append(v)
                        onst.add(v)
                        work.append((v, iter(sc[v])))
                        break
                    elif v in onst:
                        low[u] = min(low[u], idx[v])
                else:
                    work.pop()
                    if work:
                        p = work[-1][0]
                        low[p] = min(low[p], low[u])
                    if low[u] == idx[u]:
                        c = []
                        while True:
                            x = stack.pop()
                            onst.discard(x)
                            c.append(x)
                            if x == u:
                                break
                        comps.append((u, c))
        visit(entry)
        for x in sorted(nodes):
            if x not in idx:
                visit(x)
        for head, c in reversed(comps):
            out.append(head)
            if len(c) > 1:
                rest = set(c) - {head}
                # entries of the remainder: successors of the head inside it
                ent = [x for x in sc[head] if x in rest]
                order(rest, ent[0] if ent else min(rest))
    order(set(range(n)), 0)
    pos = [0] * n
    for i, b in enumerate(out):
        pos[b] = i
    return pos


def subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == "param":
        return env.get(t[1], t)
    if k == "adt":
        return ("adt", t[1], tuple(subst(x, env) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], subst(t[2], env))
    if k == "slice":
        return (k, subst(t[1], env))
    if k == "array":
        return (k, subst(t[1], env), t[2])
    if k == "tuple":
        return (k, tuple(subst(x, env) for x in t[1]))
    if k == "alias":
        return (k, t[1], tuple(subst(x, env) for x in t[2]), t[3])
    return t


def tystr(t):
    k = t[0]
    if k == "adt":
        n = t[1].split("::")[-1]
        return n + ("<" + ",".join(tystr(x) for x in t[2]) + ">" if t[2] else "")
    if k in ("ref", "ptr"):
        return "&" + ("mut " if t[1] else "") + tystr(t[2])
    if k == "tuple":
        return "(" + ",".join(tystr(x) for x in t[1]) + ")"
    if k == "int":
        return t[1]
    if k == "param":
        return t[1]
    if k == "alias":
        return t[3]
    if k == "slice":
        return "[" + tystr(t[1]) + "]"
    return ":".join(str(x) for x in t)
