"""C07: handles of a closed database fail cleanly."""
from txnmon import *


class Mon(StorageMon):
    """Runs with every Weak::upgrade failing. State: number of upgrades tried (0 or 1)."""
    fork_errors = False
    exit_limit = 40
    err_detail = True
    weight_limit = 200

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK, BEGIN, 'rocksdb_transaction_get', 'rocksdb_transaction_create_iterator')

    def call(self, I, st, fn, args, info):
        if fn.get('n') == 'upgrade' and 'Weak' in fn.get('p', ''):
            st = st.copy()
            st.mon = (0, 1)
            return [(st, NONE)]
        return StorageMon.call(self, I, st, fn, args, info)

    def ffi(self, I, st, name, args, info):
        self.violation('%s:storage' % self.what, '%s reaches the storage engine (%s in %s) although the database is closed'
                       % (self.what, name, info.where()), I, st)

    def on_panic(self, I, st, fn, args, info):
        self.violation('%s:panic' % self.what, '%s can panic (%s in %s) when the database is closed'
                       % (self.what, FNS[fn.args[0]]['p'] if fn.op == 'fn' else '?', info.where()), I, st)

    def vm_exec(self, I, st, vm, args, info):
        self.violation('%s:execute' % self.what, '%s runs a program although the database is closed' % self.what, I, st)
        return [(st, mk_ok(UNIT))]


def is_closed_err(F, I, st, v):
    if v.op != 'agg' or v.args[0] != RESULT or v.args[1] != 1:
        return False
    e = v.args[2][0]
    n = 0
    while n < 4:
        n += 1
        if e.op == 'ref':
            e = I.read(st, e)
        elif e.op == 'pure' and e.args[0] in ('into', 'from'):
            e = e.args[-1]
        else:
            break
    if e.op == 'agg' and e.args[0].rsplit('::', 1)[-1] == 'Error' and e.args[0] in F.adts:
        return F.adts[e.args[0]]['v'][e.args[1]][0] == 'DbIsClosed'
    return False


def check(ctx):
    F = ctx.F
    ctx.rule('Every operation of a handle that holds the database weakly (collections inside and outside transactions, '
             'pending queries and aggregations) is interpreted with the upgrade of the weak reference failing: every '
             'exit must be Err(DbIsClosed), with no storage call, no program run and no panic before it.')
    cg = callgraph(F)
    upgraders = [b.id for b in F.core.bodies if any(f['n'] == 'upgrade' and 'Weak' in f['p'] for f, _, _ in fn_consts(b))]
    reaching = cg.callers(upgraders) | set(upgraders)
    storage = cg.callers((PUT, DELETE, COMMIT, BEGIN, 'rocksdb_transaction_get', 'rocksdb_transaction_create_iterator', 'rocksdb_iter_valid'))
    entries = []
    for adt in ('Collection', 'TransactionalCollection'):
        for b in impl_methods(F, 'CollectionT', adt):
            if 'Result' in ty_s(b):
                entries.append(b)
    for adt in ('Find', 'Aggregate'):
        entries += [b for b in inherent(F, adt) if b.pub and 'Result' in ty_s(b)]
    for b in entries:
        mon = Mon(F)
        mon.what = b.np
        I, outs = run_entry(F, b, mon, 0)
        ctx.absorb(I)
        ctx.count('operations')
        for s, r in outs:
            ctx.count('exit_obligations')
            if not s.mon[1]:
                ctx.viol('%s:no-upgrade' % b.np, '%s can return without checking that the database is still open' % b.np, I.trace(s))
            elif not is_closed_err(F, I, s, r):
                ctx.viol('%s:not-closed-error' % b.np, '%s can return %s instead of the database-is-closed error'
                         % (b.np, show(r)[:200]), I.trace(s))
        if not outs and not mon.viol:
            ctx.viol('%s:no-exit' % b.np, '%s never returns when the database is closed' % b.np)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
        ctx.sample('%s: %d exits' % (b.np, len(outs)), 40)
    ctx.floor('operations', 28)
