"""Meaning of each instruction of the virtual machine, extracted from the source of VM::execute."""
from arms import *
from models import bson_variant

NSTACK = 6
BS = 'bson::bson::Bson'


class ArmWorld(ArmMixin, StorageMon):
    """One instruction on a machine whose stack, frames and registers are named. Everything below the machine is opaque."""
    weight_limit = 12
    join_limit = 200
    exit_limit = 200
    err_detail = True
    vec_max = 40
    fork_errors = False

    def __init__(self, F):
        StorageMon.__init__(self, F)
        self.relevant = set()
        self.arm_init(F)
        self.vm_adt = adt_named(F, 'VM')
        self.vm_methods = {b.id for b in F.core.bodies if b.promoted is None and b.kind == 'AssocFn' and isinstance(b.self_ty, int)
                           and b.crate.types[b.self_ty].get('adt') == self.vm_adt}
        self.panics = []
        self.reads = set()

    def inline(self, I, b, depth):
        if b.id in self.vm_methods:
            return True
        return None

    def call(self, I, st, fn, args, info):
        if self.is_fetch(st, fn, args, info):
            return self.fetch(I, st, args, info)
        n, p = fn.get('n') or '', fn.get('p') or ''
        if n == 'as_ptr' and len(args) == 1:
            return [(st, T('pure', 'code', I.deepval(st, args[0])))]
        if n in ('add', 'sub') and 'ptr' in p and len(args) == 2:
            return [(st, ptr_add(args[0], args[1]))] if n == 'add' else [(st, T('pure', 'ptrsub', *args))]
        if n == 'cast' and 'ptr' in p:
            return [(st, args[0])]
        if n == 'read' and 'ptr' in p and len(args) == 1:
            w = info.body.crate.types[info.destty]['s']
            self.reads.add((args[0], w))
            return [(st, T('pure', 'operand', args[0], S_(w)))]
        if n == 'resize' and 'Vec' in p and len(args) == 3:
            v = I.read(st, args[0])
            if v.op == 'agg' and v.args[0] == 'vec':
                st = st.copy()
                r, q = I.deref_loc(args[0])
                if args[1].op == 'c' and args[1].args[1] <= len(v.args[2]):
                    nv = T('agg', 'vec', 0, v.args[2][:args[1].args[1]])
                else:
                    nv = T('agg', 'resized', 0, (v, args[1]))
                I.store(st, r, q, nv)
                return [(st, UNIT)]
        if n == 'index' and len(args) == 2 and args[1].op == 'agg' and 'RangeFrom' in str(args[1].args[0]):
            r, q = I.deref_loc(args[0])
            return [(st, T('ref', T('V', T('pure', 'from', I.deepval(st, T('ref', r, q)), args[1].args[2][0])), ()))]
        return StorageMon.call(self, I, st, fn, args, info)

    def on_panic(self, I, st, fn, args, info):
        self.panics.append((self.op, info.where(), info.line))
        return None


def ptr_add(p, k):
    if p.op == 'pure' and p.args[0] == 'at' and p.args[2].op == 'c' and k.op == 'c':
        return T('pure', 'at', p.args[1], I_(p.args[2].args[1] + k.args[1]))
    if k.op == 'cast' and k.args[0] == 'usize':
        k = k.args[1]
    return T('pure', 'at', p, k)


PC = T('par', 'pc')


def world(F):
    """The machine before the instruction."""
    vm = adt_named(F, 'VM')
    fields = F.adts[vm]['v'][0][2]
    names = [f[0] for f in fields]
    prog = adt_named(F, 'SubProgram')
    pn = [f[0] for f in F.adts[prog]['v'][0][2]]
    vals = {n: T('par', n) for n in names}
    vals['stack'] = T('agg', 'vec', 0, tuple(T('par', 's%d' % i) for i in range(NSTACK)))
    frame = adt_named(F, 'VMFrame')
    fn = [f[0] for f in F.adts[frame]['v'][0][2]]
    vals['frames'] = T('agg', 'vec', 0, (T('par', 'frame0'), T('agg', frame, 0, tuple(T('par', 'frame-' + x) for x in fn))))
    vals['program'] = T('agg', prog, 0, tuple(T('par', x) for x in pn))
    return vm, names, vals


def observe(F, op, tweak=None):
    vm, names, vals = world(F)
    if tweak:
        vals = dict(vals, **tweak)
    mon = ArmWorld(F)
    st = St()
    root = T('D', T('par', 0))
    st.mem[root] = T('agg', vm, 0, tuple(vals[n] for n in names))
    I, ends = run_arm(F, op, mon, st=st, args=[T('par', 0)])
    out = []
    for s, r in ends:
        v = I.deepval(s, I.load(s, root), 8)
        d = {}
        for i, n in enumerate(names):
            x = proj(v, ('f', None, i))
            if x is not vals[n]:
                d[n] = x
        out.append((s, r, d))
    return I, mon, out
