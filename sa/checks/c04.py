"""C04: storage failures are reported, never mistaken for success or the end of the data."""
from fails import *
from vmrun import MachineMon, run_machine, compile_program, scalars
from emit import setup, bstr, bson, doc, bdoc
import query
import writes
from query import *
from checks import c16


class FnMon(Failing, KeyMon):
    """Functions outside the machine. rest: (what failed or None, what is known of the iterator)."""
    exit_limit = 1
    join_limit = 8

    def __init__(self, F):
        KeyMon.__init__(self, F)
        self.seen_ffi = set()
        e = adt_named(F, 'Error')
        vs = [i for i, v in enumerate(F.adts[e]['v']) if v[0] == 'RocksDbErr']
        if len(vs) != 1:
            raise Missing('the error variant for storage errors')
        self.storage_error = T('agg', e, vs[0], (T('par', 'message'),))
        self.relevant = self.cg.callers(RELEVANT(F))

    def failure(self, st):
        return st.mon[1][0]

    def position(self, st, h):
        return dict(st.mon[1][1]).get(h)

    def fail(self, I, st, name, info):
        st.mon = (st.mon[0], (name, st.mon[1][1]))

    def moved(self, st, h, f):
        st.mon = (st.mon[0], (st.mon[1][0], ((h, f),)))          # the iterator used last

    def vm_exec(self, I, st, vm, args, info):
        out = KeyMon.vm_exec(self, I, st, vm, args, info)
        res = []
        for s, v in out:
            if v.op == 'agg' and v.args[1] == 1:
                if s.mon[1][0] is None:
                    self.fail(I, s, 'VM::execute', info)
                v = mk_err(self.storage_error)
            res.append((s, v))
        return res


def RELEVANT(F):
    """Storage functions that can report an error."""
    names = {n for n in callgraph(F).inn if str(n).startswith('rocksdb_')}
    return tuple(sorted(n for n in names if n not in CLOSING and ('transaction_' in n or 'iter_' in n or n.endswith('_open'))))


def reports(v, st, I, d=0):
    """Does a returned value carry an error?"""
    if d > 4 or not isinstance(v, Term):
        return False
    k = result_kind(v, st, I)
    if k == 'err':
        return True
    if v.op == 'agg' and v.args[0] in (OPTION, RESULT, POLL) or v.op == 'agg' and v.args[0] == 'tuple':
        return any(reports(x, st, I, d + 1) for x in v.args[2])
    return False


POLL = 'core::task::Poll'


def functions(ctx):
    F = ctx.F
    cg = callgraph(F)
    reach = cg.callers(RELEVANT(F)) | cg.callers({vm_execute(F).id})
    handles = {'Database', 'Collection', 'TransactionalCollection', 'Transaction', 'ClientCursor', 'Find', 'Aggregate'}
    todo = []
    ex = vm_execute(F)
    for b in F.core.bodies:
        if b.promoted is not None or b.kind not in ('Fn', 'AssocFn') or b.id not in reach or b is ex or '::tests::' in b.np or b.name.startswith('test_'):
            continue
        if in_machine(F, b, ex):
            continue
        s = b.crate.types[b.self_ty] if isinstance(b.self_ty, int) else {}
        mine = s.get('k') == 'adt' and s['adt'].rsplit('::', 1)[-1] in handles
        if 'Result<' in ty_s(b) or mine and (b.pub or b.trait) and b.name != 'fmt':
            todo.append(b)
    # what another of them calls is interpreted with its caller
    ids = {b.id for b in todo}
    below = set()
    for b in todo:
        below |= (cg.reach({b.id}) - {b.id}) & ids if b.id not in below else set()
    return [b for b in todo if b.id not in below]


def in_machine(F, b, ex):
    """Functions only the machine runs are judged with it."""
    s = b.crate.types[b.self_ty] if isinstance(b.self_ty, int) else {}
    t = ex.crate.types[ex.self_ty]
    return s.get('adt') == t.get('adt')


def one_function(F, b):
    mon = FnMon(F)
    I, outs = run_entry(F, b, mon, (None, ()))
    bad = []
    for s, r in outs:
        f = s.mon[1][0]
        if f is not None and not reports(I.deepval(s, r, 4), s, I):
            bad.append((f, I.trace(s)))
    return I.steps, len(outs), sum(1 for s, r in outs if s.mon[1][0]), sorted(mon.seen_ffi), bad


class VmMon(Failing, MachineMon):
    """The machine. Failures and iterator positions are events of the history."""
    storage_ends = True

    def __init__(self, *a):
        MachineMon.__init__(self, *a)
        self.seen_ffi = set()

    def failure(self, st):
        return next((e[1] for e in reversed(self.ev(st)) if e[0] == 'fail'), None)

    def position(self, st, h):
        return next((e[2] for e in reversed(self.ev(st)) if e[0] == 'pos' and e[1] is h), None)

    def fail(self, I, st, name, info):
        self.push(st, 'fail', name)

    def moved(self, st, h, f):
        self.push(st, 'pos', h, f)


def machine_jobs(tier):
    out = []
    nq, ns = len(c16.queries()), len(c16.pipelines())
    for k in range(nq):
        for ixs in ((), (('ia', 'a'),)) if k < 6 or tier == 'thorough' else ((),):
            out.append(('query', k, ixs, 1, 0))
    for kind in ('update', 'delete'):
        for k in (0, 1, 2) + ((3, 4, 5) if tier == 'thorough' else ()):
            for ixs, u in (((), False), ((('ia', 'a'), ('ib', 'b')), False), ((('ib', 'b'),), True)):
                for m in (0, 1):
                    out.append((kind, k, ixs, m, u))
    for ixs in ((), (('ia', 'a'),)):
        out.append(('delete_all', 0, ixs, 1, False))
    for k in range(ns):
        if k < 9 or tier == 'thorough' or k >= ns - 3:
            out.append(('aggregate', k, (), 1, False))
    return out


def machine_job(F, j):
    kind, k, ixs, many, unique = j
    made = []

    class Mon(VmMon):
        def __init__(self, *a):
            VmMon.__init__(self, *a)
            made.append(self)
    kw, ast = {}, None
    if kind == 'aggregate':
        names = c16.pipelines()[k]
        s = c16.stages()
        kw['pipeline'] = [doc((n, s[n])) for n in names]
        what = 'pipeline %s' % ' '.join(names)
    else:
        what = '%s%s %s' % (kind, '' if kind in ('query', 'delete_all') else '_many' if many else '_one', c16.queries()[k][0] if kind != 'delete_all' else '')
        ast = c16.queries()[k][1] if kind != 'delete_all' else None
    if kind == 'update':
        kw['update'] = writes.update_doc(1)
    t = Trial(F, ast, ('a', 'b', 'c'), (), ixs, 2 if kind != 'aggregate' else 1, None, r'.*SubProgram::compile_' + kind, Mon, is_many=many,
              extra_facts=(), unique=unique, max_ends=1, **kw)
    bad, n, failed = [], 0, {}
    for I, p, ev, why, st, root in t.paths:
        f = [i for i, e in enumerate(ev) if e[0] == 'fail']
        n += 1
        if not f:
            continue
        name = ev[f[0]][1]
        failed[name] = failed.get(name, 0) + 1
        row = any(e[0] == 'row' for e in ev[f[0]:])
        if why != 'err' or row:
            bad.append((name, '%s: after %s the execution %s' % (
                what + (' (indexes on %s)' % ', '.join(f for _, f in ixs) if ixs else ''), said(name),
                'delivers another row' if row else {'halt': 'ends as if it were complete', 'rows': 'goes on', 'more': 'goes on with another candidate'}.get(why, why)), I.trace(st)))
    return bad, n, failed, t.steps, sorted(set().union(*[m.seen_ffi for m in made])) if made else []


def said(name):
    return {'iterator': 'an iterator stopped because of a storage error', 'VM::execute': 'a storage error while a program ran'}.get(name, '%s reported an error' % name)


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('(1) Every public operation (and every other function of the library with a Result that reaches the storage engine) is interpreted with every '
             'storage call that has an error output failing once on some path, and every invalid iterator being either at the end or failed: the '
             'value returned on a path with a failure carries an error. A program run by the machine fails with a storage error on some path. '
             '(2) The programs the compilers emit for queries, updates, deletes and pipelines are executed abstractly with the same failures: an execution '
             'with a failure ends with an error and delivers no row after the failure.')
    todo = functions(ctx)
    seen = {}
    for b, (steps, n, nf, ffi, bad) in zip(todo, parallel(F, one_function, todo, chunk=1)):
        ctx.count('functions')
        ctx.count('exit_states', n)
        ctx.count('failing_exit_states', nf)
        ctx.count('blocks_interpreted', steps)
        for x in ffi:
            seen[x] = seen.get(x, 0) + 1
        ctx.sample('%s: %d exits, %d after a failure (%s)' % (b.np, n, nf, ', '.join(ffi)))
        for name, tr in bad:
            ctx.viol('%s:%s' % (b.np, name), '%s can return without an error after %s' % (b.np, said(name)), tr)
    js = machine_jobs(ctx.tier)
    for j, (bad, n, failed, steps, ffi) in zip(js, parallel(F, machine_job, js, chunk=1)):
        ctx.count('programs')
        ctx.count('machine_paths', n)
        ctx.count('failing_machine_paths', sum(failed.values()))
        ctx.count('blocks_interpreted', steps)
        for x in failed:
            seen[x] = seen.get(x, 0) + 1
        for name, msg, tr in bad:
            ctx.viol('machine:%s:%s' % (j[0], name), msg, tr)
    for x in (PUT, DELETE, COMMIT, ROLLBACK, GFU, 'rocksdb_transactiondb_open', 'iterator'):
        if x not in seen:
            ctx.viol('coverage:' + x, 'no path was found on which %s' % said(x))
    ctx.sample('failures: %s' % ', '.join('%s in %d' % (x, seen[x]) for x in sorted(seen)))
    ctx.floor('functions', 30)
    ctx.floor('programs', 30)
    ctx.floor('failing_machine_paths', 60)
