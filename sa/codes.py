"""Control codes on the wire (C24): abstract runs of from_u8 over a partition of the byte values, and of as_u8 per code."""
import lin as L
from eng import Engine, St, U
from models import Models
from rpcc import adt_id
from conn import find_inherent

SELF = ('loc', ('G', 'code'), ())
WIRE = {'Normal': 0, 'Cancel': 1, 'End': 2}
PART = [('0', 0, 0, 'Normal'), ('1', 1, 1, 'Cancel'), ('2', 2, 2, 'End'), ('3..=255', 3, 255, 'Cancel')]


class CodeMon:
    def __init__(self):
        self.count = {}

    def n(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def on_panic(self, e, st, kind, span, ops, d, lin=None):
        e.report('C24', 'panic ' + kind, "a control code from the wire makes the conversion panic", st, span)


def run(prog, max_steps=20000):
    aid = adt_id(prog, 'ProtosocketControlCode')
    if aid is None:
        return None, None, 'ProtosocketControlCode'
    rd, wr = find_inherent(prog, aid, 'from_u8'), find_inherent(prog, aid, 'as_u8')
    if rd is None or wr is None:
        return None, None, 'ProtosocketControlCode::from_u8 and as_u8'
    names = [v[0] for v in prog.adts[aid]["v"]]
    if set(names) < set(WIRE):
        return None, None, 'Normal, Cancel and End'
    mon = CodeMon()
    e = Engine(prog, Models(), [mon], max_steps)
    for what, lo, hi, want in PART:
        st = St()
        b = ('n', L.const(lo)) if lo == hi else e.fresh_int(st, 'u8', lo, hi)
        st.mon['case'] = ('k', what)
        e.push(st, rd, [b], None, {})
        for t, v in e.run(st):
            mon.n('read')
            e.stats["obl"].add(('read', what))
            if v[0] == 's':
                got = names[v[2]]
            elif v[0] == 'y' and isinstance(t.vf.get(v[1]), frozenset) and len(t.vf[v[1]]) == 1:
                got = names[next(iter(t.vf[v[1]]))]
            else:
                e.undecide('C24', 'read ' + what, f"what {what} is read as could not be determined", t)
                continue
            if got != want:
                e.report('C24', f'{what} is read as {got}', f"a byte {what} on the wire is read as {got}, not {want}", t, rd.sp)
    for name, want in WIRE.items():
        st = St()
        val = ('s', ('adt', aid, ()), names.index(name), None, ())
        st.mem[SELF[1]] = val
        st.mon['case'] = ('k', name)
        byref = wr.locals[1][0] == 'ref'
        e.push(st, wr, [('r', SELF, 'ref') if byref else val], None, {})
        for t, v in e.run(st):
            mon.n('written')
            e.stats["obl"].add(('written', name))
            l = e.N(t, v[1]) if v[0] == 'n' else None
            if l is None or l[1]:
                e.undecide('C24', 'written ' + name, f"what {name} is written as could not be determined", t)
            elif l[0] != want:
                e.report('C24', f'{name} is written as {l[0]}', f"{name} is written to the wire as {l[0]}, not {want}", t, wr.sp)
    return e, mon, 1
