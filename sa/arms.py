"""Per-opcode analysis of the virtual machine: runs VM::execute abstractly for one instruction at a time."""
from core import *

STOP = 'next-instruction'


class ArmMixin:
    """Makes the first instruction fetch yield self.op and the second one end the path (recorded in self.ends)."""
    op = None

    def arm_init(self, F):
        self.dbop = adt_named(F, 'DbOp')
        self.opnames = [v[0] for v in F.adts[self.dbop]['v']]
        self.ends = []
        self.fetch_ctx = None

    def is_fetch(self, st, fn, args, info):
        t = info.destty
        if not isinstance(t, int) or info.body.crate.types[t].get('adt') != self.dbop:
            return False
        a0 = info.body.crate.types[info.argtys[0]] if info.argtys else {}
        return a0.get('k') == 'ptr'

    def fetch(self, I, st, args, info):
        """One instruction fetch."""
        st = st.copy()
        fetched, rest = st.mon
        if fetched:
            self.ends.append((st, None))
            return [(st, DIVERGE)]
        st.mon = (1, rest)
        return [(st, T('agg', self.dbop, self.opnames.index(self.op), ()))]


class ArmMon(ArmMixin, StorageMon):
    """Storage events and exits of one instruction. Monitor state: (instruction fetched?, state of the check)."""
    weight_limit = 60
    exit_limit = 2
    join_limit = 16
    err_detail = False

    def __init__(self, F):
        StorageMon.__init__(self, F)
        self.arm_init(F)

    def inline(self, I, b, depth):
        if b is self.exec_body:
            return True
        return StorageMon.inline(self, I, b, depth)

    def call(self, I, st, fn, args, info):
        if self.is_fetch(st, fn, args, info):
            return self.fetch(I, st, args, info)
        return StorageMon.call(self, I, st, fn, args, info)

    def ffi_result(self, I, st, name, args, info, failed):
        f, ev = st.mon
        st.mon = (f, ev | {name + ('!' if failed else '')})


def run_arm(F, op, mon, st=None, args=None, rest=frozenset()):
    """Exits of one instruction: [(state, result or None when the next instruction is fetched)]."""
    I = Interp(F, mon)
    b = vm_execute(F)
    cid = I.ctx(None, 0, b)
    if args is None:
        args = [T('par', n) for n in range(b.argc)]
    I.pin = tuple(args)
    mon.op = op
    mon.ends = []
    st = st or St()
    st.mon = (0, rest)
    outs = I.run(b, args, st, cid)
    # ends at the second fetch belong to the instruction; duplicates are merged by state
    seen, ends = set(), []
    for s, r in mon.ends + outs:
        k = (s.key(), r)
        if k not in seen:
            seen.add(k)
            ends.append((s, r))
    return I, ends


_effects = {}


def arm_effects(F):
    """opcode -> set of storage functions some path of its arm calls."""
    if id(F) not in _effects:
        out = {}
        dbop = adt_named(F, 'DbOp')
        for v in F.adts[dbop]['v']:
            mon = ArmMon(F)
            mon.fork_errors = False
            I, ends = run_arm(F, v[0], mon)
            ev = set()
            for s, r in ends:
                ev |= {x for x in s.mon[1]}
            ev |= set(mon.events)
            out[v[0]] = ev
        _effects[id(F)] = out
    return _effects[id(F)]
