"""C02: auto-committed operations are all-or-nothing."""
from txnmon import *


class Mon(TxnMon):
    entry = None

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK, BEGIN)

    def on_event(self, I, st, rest, name, failed, info, args=()):
        if name not in (PUT, DELETE, COMMIT, ROLLBACK) or not args:
            return rest
        d = dict(rest)
        txn = args[0]
        old = d.get(txn, 'clean')
        d[txn] = self.step(I, st, old, name, failed, info)
        return tuple(sorted(d.items(), key=lambda x: x[0].n))

    def step(self, I, st, ph, name, failed, info):
        e = self.entry.np
        if name in WRITES:
            if ph in ('committed', 'empty-commit'):
                self.violation('%s:write-after-commit' % e,
                               '%s changes the storage (%s in %s) after the operation has already committed'
                               % (e, name, info.where()), I, st)
            return 'dirty' if ph in ('clean', 'dirty') else ph
        if name == COMMIT:
            if failed:
                return ph
            if ph == 'committed':
                self.violation('%s:double-commit' % e, '%s commits twice (%s)' % (e, info.where()), I, st)
            # committing a transaction that changed nothing has no effect
            return 'committed' if ph not in ('clean', 'empty-commit') else 'empty-commit'
        if not failed and ph == 'dirty':
            return 'rolled-back'
        return ph


def check(ctx):
    F = ctx.F
    ctx.rule('For every operation of a collection handle and of the database handle that reaches a storage write, all '
             'paths are interpreted with every storage call both succeeding and failing: Ok requires a successful '
             'commit after the last write and no rollback, Err requires that no commit succeeded, nothing is written '
             'or committed after the commit; a program run by the VM counts as a write if its instructions can write, '
             'and its committing instructions are interpreted on the transaction it was given.')
    cg = callgraph(F)
    writers = cg.callers(WRITES)
    entries = impl_methods(F, 'CollectionT', 'Collection') + [b for b in inherent(F, 'Database') if b.pub]
    entries = [b for b in entries if b.id in writers and 'Result' in ty_s(b)]
    for b in entries:
        mon = Mon(F)
        mon.entry = b
        I, outs = run_entry(F, b, mon, ())
        ctx.absorb(I)
        ctx.count('entry_points')
        kinds = set()
        for s, r in outs:
            phs = {p for _, p in s.mon[1]}
            k = result_kind(r, s, I)
            kinds.add((k,) + tuple(sorted(phs)))
            ctx.count('exit_obligations')
            if k != 'err' and 'dirty' in phs:
                mon.violation('%s:ok-uncommitted' % b.np, '%s can return success without having committed its changes' % b.np, I, s)
            if k != 'err' and 'rolled-back' in phs:
                mon.violation('%s:ok-rolled-back' % b.np, '%s can return success after rolling its changes back' % b.np, I, s)
            if k != 'ok' and 'committed' in phs:
                mon.violation('%s:err-committed' % b.np, '%s can return an error although its changes are committed' % b.np, I, s)
        ctx.count('storage_events', sum(mon.events.values()))
        ctx.sample('%s: exits %s' % (b.np, sorted(map(str, kinds))))
        if not any(n in WRITES or n == 'VM::execute' for n in mon.events):
            ctx.viol('%s:no-write-seen' % b.np, 'no storage write was reached when interpreting %s' % b.np)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
    ctx.floor('entry_points', 12)
