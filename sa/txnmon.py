"""Transaction-level analyses of the public operations (used by C01, C02, C03, C20 ...)."""
from arms import *


def impl_methods(F, trait_name, adt_name, crate='polodb_core'):
    """Bodies implementing a trait (by its last path segment) for a type (by name)."""
    out = []
    for b in F.crates[crate].bodies:
        if b.promoted is None and b.trait and b.kind == 'AssocFn' and b.trait.split('::')[-1] == trait_name:
            s = b.crate.types[b.self_ty] if isinstance(b.self_ty, int) else {}
            if s.get('k') == 'adt' and s['adt'].rsplit('::', 1)[-1] == adt_name:
                out.append(b)
    return out


def inherent(F, adt_name, crate='polodb_core'):
    out = []
    for b in F.crates[crate].bodies:
        if b.promoted is None and not b.trait and b.kind == 'AssocFn' and isinstance(b.self_ty, int):
            s = b.crate.types[b.self_ty]
            if s.get('k') == 'adt' and s['adt'].rsplit('::', 1)[-1] == adt_name:
                out.append(b)
    return out


class TxnMon(ArmMixin, StorageMon):
    """Monitor state: (in one-instruction mode: fetched?, state of the check)."""
    exit_limit = 1
    join_limit = 8

    def __init__(self, F):
        StorageMon.__init__(self, F)
        self.arm_init(F)
        self.progs, _ = program_ops(F)
        self.effects = arm_effects(F)
        self.execs = set()
        self.vm_adt = adt_named(F, 'VM')
        fields = F.adts[self.vm_adt]['v'][0][2]
        self.vm_keep = {i for i, f in enumerate(fields) if field_ty(F, f) in ('SubProgram', 'TransactionInner')}
        self.vm_prog = [i for i, f in enumerate(fields) if field_ty(F, f) == 'SubProgram'][0]
        self.vm_txn_field = [i for i, f in enumerate(fields) if field_ty(F, f) == 'TransactionInner'][0]
        if len(self.vm_keep) < 2:
            raise Missing('the program and transaction fields of VM')

    def opaque_body(self, I, b):
        return b.id in self.progs

    def call(self, I, st, fn, args, info):
        if self.op is not None and self.is_fetch(st, fn, args, info):
            return self.fetch(I, st, args, info)
        return StorageMon.call(self, I, st, fn, args, info)

    def call2(self, I, st, fn, b, args, info):
        if b is not None and b.id in self.progs:
            p = T('c', 'prog', frozenset([b.id]))
            if b.crate.types[b.locals[0]]['adt'] == RESULT:
                return [(st.copy(), mk_ok(p)), (st.copy(), mk_err(T('call', b.np + '/error', info.sid, 0)))]
            return [(st, p)]
        return None

    def join_values(self, x, y):
        if x.op == 'c' and y.op == 'c' and x.args[0] == 'prog' and y.args[0] == 'prog':
            return T('c', 'prog', x.args[1] | y.args[1])
        return None

    def program_of(self, I, st, vm):
        """The builders of the program a VM value runs and the opcodes it can contain (all when unknown)."""
        p = None
        if vm.op == 'agg' and vm.args[0] == self.vm_adt:
            p = vm.args[2][self.vm_prog]
            n = 0
            while p.op == 'ref' and n < 3:
                p, n = I.read(st, p), n + 1
        if p is None or p.op != 'c' or p.args[0] != 'prog':
            return None, set(self.opnames)
        ops = set()
        for b in p.args[1]:
            ops |= self.progs[b]
        return tuple(sorted(self.F.by_id[b].np for b in p.args[1])), ops

    def vm_txn(self, I, st, vm):
        """The storage transaction a VM works on: the handle inside its transaction field."""
        if vm.op == 'agg' and vm.args[0] == self.vm_adt:
            v = I.deepval(st, vm.args[2][self.vm_txn_field], 12)
            hs = set()
            todo = [v]
            while todo:
                x = todo.pop()
                if x.op == 'call' and x.args[0] == BEGIN:
                    hs.add(x)
                elif x.op == 'agg':
                    todo.extend(x.args[2])
            if len(hs) == 1:
                return hs.pop()
        return T('txn-of', vm)

    def vm_exec(self, I, st, vm, args, info):
        src, ops = self.program_of(I, st, vm)
        self.execs.add((info.body.np, src))
        rest = st.mon[1]
        eff = set()
        for o in ops:
            eff |= self.effects[o]
        for w in WRITES:
            if w in eff:
                rest = self.on_event(I, st, rest, w, False, info, (self.vm_txn(I, st, vm),))
        mons = {rest: 0}
        for o in sorted(ops):
            if self.effects[o] & {COMMIT, ROLLBACK}:
                s = st.copy()
                s.mon = (0, rest)
                saved, self.ends, saved_op = self.ends, [], self.op
                self.op = o
                outs = I.enter(self.exec_body, args, s, info)
                for s2, r2 in outs + [(x, None) for x, _ in self.ends]:
                    m = s2.mon[1]
                    mons[m] = mons.get(m, 0) or (1 if r2 is None or result_kind(r2) == 'ok' else 0)
                self.ends, self.op = saved, saved_op
        out = []
        for m in mons:
            for res in ('ok', 'err'):
                s = st.copy()
                s.mon = (0, m)
                r0, p = I.deref_loc(args[0])
                self.after_exec(I, s, r0, p, info, res)
                out.append((s, mk_ok(UNIT) if res == 'ok' else mk_err(T('call', 'VM::execute/error', info.sid, 0))))
        return out

    def after_exec(self, I, s, root, path, info, res):
        # running changes the registers, not the program or the transaction it runs on
        v = I.load(s, root, path)
        if v.op == 'agg' and v.args[0] == self.vm_adt:
            fs = tuple(x if i in self.vm_keep else T('hav', info.sid, 0, ('vm', i)) for i, x in enumerate(v.args[2]))
            I.store(s, root, path, T('agg', v.args[0], v.args[1], fs))
        else:
            I.store(s, root, path, T('hav', info.sid, 0, 'vm'))

    def ffi_result(self, I, st, name, args, info, failed):
        f, rest = st.mon
        st.mon = (f, self.on_event(I, st, rest, name, failed, info, args))

    def on_event(self, I, st, rest, name, failed, info, args=()):
        return rest


def run_entry(F, body, mon, rest, limit=1500000, args=None, st=None):
    I = Interp(F, mon)
    I.STEP_LIMIT = limit
    cid = I.ctx(None, 0, body)
    args = args or [T('par', n) for n in range(body.argc)]
    I.pin = tuple(args) + tuple(getattr(mon, "pin", ()))
    st = st or St()
    st.mon = (0, rest)
    return I, I.run(body, args, st, cid)
