"""Update operators: compiled from an update document by the source's own generator, then applied, abstractly, to a document with
known field names and unknown values."""
from vmrun import *


class OpMon(EmitMon):
    """Monitor state: (history) of comparisons."""

    def __init__(self, F):
        EmitMon.__init__(self, F)
        self.value_cmp = value_cmps(F)

    def inline(self, I, b, depth):
        return False if b.id in self.value_cmp else True if b.crate is self.F.core else None

    def call(self, I, st, fn, args, info):
        b = I.resolve(st, fn, args) if len(args) == 2 else None
        if b is not None and b.id in self.value_cmp:
            x, y = (strip(I.deepval(st, a)) for a in args)
            outs = []
            for o in (-1, 0, 1):
                s = st.copy()
                s.mon = st.mon + (('cmp', x, y, o),)
                outs.append((s, mk_ok(T('agg', 'core::cmp::Ordering', o + 1, ()))))
            return outs
        return EmitMon.call(self, I, st, fn, args, info)


@memo
def operator_impls(F):
    """Body of UpdateOperator::update per operator type."""
    out = {}
    for b in F.core.bodies:
        if b.promoted is None and b.kind == 'AssocFn' and b.trait and b.trait.rsplit('::', 1)[-1] == 'UpdateOperator' and b.argc == 2:
            t = b.crate.types[b.self_ty] if isinstance(b.self_ty, int) else {}
            if t.get('k') == 'adt':
                out[t['adt']] = b
    if len(out) < 2:
        raise Missing('implementations of UpdateOperator::update')
    return out


def compile_update(F, update, facts=()):
    """[(kind, [operator values] or error, state)] for an update document (term), and the panics reached."""
    import query
    b = one(F, r'.*SubProgram::compile_update')
    args = query.compile_args(F, b, query.spec_of(F), doc(), 1, update)
    I, mon, outs = compile_program(F, r'.*SubProgram::compile_update', args, facts)
    impls = operator_impls(F)
    res = []
    for s, k, p in outs:
        if k != 'ok':
            res.append(('err', p, s))
            continue
        found, seen, work = [], set(), [p]
        while work:
            t = work.pop()
            if isinstance(t, tuple):
                work.extend(reversed(t))
            elif isinstance(t, Term) and t not in seen:
                seen.add(t)
                if t.op == 'ref' and t.args[0].op == 'H':
                    work.append(I.read(s, t))
                if t.op == 'agg' and t.args[0] in impls:
                    found.append(t)
                else:
                    work.extend(reversed(t.args))
        res.append(('ok', found, s))
    return I, mon, res


def apply(F, op, value, st=None, facts=()):
    """[(kind, updated term, new value, comparisons, state)] of op.update(&mut value), and (interpreter, monitor)."""
    b = operator_impls(F)[op.args[0]]
    mon = OpMon(F)
    I = Interp(F, mon)
    st = st.copy() if st is not None else St()
    st.mon = ()
    for f in facts:
        f(I, st)
    root = T('D', T('par', 'target'))
    st.mem[root] = value
    I.pin = (op, T('par', 'target')) + tuple(sorted(pars(op, value), key=str))
    args = [vref(op), T('par', 'target')]
    outs = I.run(b, args, st, I.ctx(None, 0, b))
    res = []
    for s, r in outs:
        k = result_kind(r, s, I)
        v = I.deepval(s, r, 12)
        u = v.args[2][0] if v.op == 'agg' and v.args[2] else None
        if k == 'ok' and u is not None and u.op == 'agg' and len(u.args[2]) == 1:
            u = u.args[2][0]
        res.append((k, u, I.deepval(s, I.load(s, root), 12), s.mon, s))
    return I, mon, res
