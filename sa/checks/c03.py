"""C03: explicit transactions change nothing until committed."""
import re
from txnmon import *

STORAGE = 'rocksdb_transaction_'


class Mon(TxnMon):
    """State: (the transaction's handle or None, number of successful commits, number of successful rollbacks)."""
    what = ''

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK, BEGIN, 'rocksdb_transaction_get', 'rocksdb_transaction_get_for_update',
                'rocksdb_transaction_create_iterator', 'rocksdb_transaction_destroy')

    def on_event(self, I, st, rest, name, failed, info, args=()):
        txn, commits, rollbacks = rest
        if name == BEGIN:
            if txn is None:
                return (T('call', name, info.sid, 0, *args), commits, rollbacks)
            self.violation('%s:second-transaction' % self.what, '%s begins another storage transaction (%s) instead of '
                           'acting inside the explicit one' % (self.what, info.where()), I, st)
            return rest
        if not name.startswith(STORAGE) or not args:
            return rest
        if txn is not None and args[0] is not txn:
            self.violation('%s:other-transaction:%s' % (self.what, name), '%s calls %s (%s) on a transaction that is not the one it was '
                           'issued through' % (self.what, name, info.where()), I, st)
        self.cover[name] = self.cover.get(name, 0) + 1
        if name == COMMIT and not failed:
            commits = min(commits + 1, 2)
        if name == ROLLBACK and not failed:
            rollbacks = min(rollbacks + 1, 2)
        return (txn, commits, rollbacks)


def runb(F, I, body, args, st, n):
    cid = I.ctx(None, -100 - n, body)
    I.pin = tuple(args) + tuple(x for x in I.pin)
    return I.run(body, args, st.copy(), cid)


def builders(F, name):
    """The methods that turn a lazy query into another one."""
    return [b for b in inherent(F, name) if b.pub and b.argc and b.name != 'run'
            and re.match(r'[\w:]*\b%s<' % name, ty_s(b, 1)) and re.match(r'[\w:]*\b%s<' % name, ty_s(b, 0))]


def follow(F, I, mon, body, args, st, depth=0):
    """Run a transactional operation and, when it makes a lazy query or a cursor, that too."""
    outs = []
    for s, r in runb(F, I, body, args, st, depth):
        outs.append((s, r))
        v = r
        if v.op == 'agg' and v.args[0] == RESULT and v.args[1] == 0:
            v = v.args[2][0]
        if v.op == 'agg' and isinstance(v.args[0], str):
            name = v.args[0].rsplit('::', 1)[-1]
            if depth > 4:
                continue
            if name in ('Find', 'Aggregate'):
                l = [b for b in inherent(F, name) if b.name == 'run']
                if not l:
                    raise Missing('%s::run' % name)
                outs += follow(F, I, mon, l[0], [v], s, depth + 1)
                if depth == 0 and hasattr(mon, 'builders'):
                    for b in builders(F, name):
                        mon.builders.add(b.np)
                        outs += follow(F, I, mon, b, [v] + [T('par', (b.name, i)) for i in range(1, b.argc)], s, depth + 1)
            elif name == 'ClientCursor':
                root = T('H', I.site(0, -7 - depth), 0, 'cursor')
                s = s.copy()
                s.mem[root] = v
                ref = T('ref', root, ())
                for b in inherent(F, name):
                    if b.pub and b.name == 'advance':
                        outs += follow(F, I, mon, b, [ref], s, depth + 2)
                        mon.cursors += 1
    return outs


def check(ctx):
    F = ctx.F
    ctx.rule('Client programs "begin an explicit transaction; take a collection from it; run one operation (and the '
             'query or cursor it returns)" are interpreted over all paths with storage failures: no storage call may '
             'commit or roll back, every storage call must be made on the handle the transaction began, and no other '
             'transaction may begin. Transaction::commit and rollback must make exactly that call on that handle. No '
             'destructor may reach a commit.')
    cg = callgraph(F)
    start = [b for b in inherent(F, 'Database') if b.pub and 'transaction::Transaction' in ty_s(b)]
    if len(start) != 1:
        raise Missing('the method of Database that returns a Transaction')
    txn_methods = {b.name: b for b in inherent(F, 'Transaction') if b.pub}
    for n in ('collection', 'commit', 'rollback'):
        if n not in txn_methods:
            raise Missing('Transaction::' + n)
    mon = Mon(F)
    mon.cover, mon.cursors, mon.builders = {}, 0, set()
    I = Interp(F, mon)
    mon.what = start[0].np
    cid = I.ctx(None, 0, start[0])
    s0 = St()
    s0.mon = (0, (None, 0, 0))
    a0 = [T('par', ('db', i)) for i in range(start[0].argc)]
    I.pin = tuple(a0)
    begun = []
    for s, r in I.run(start[0], a0, s0, cid):
        if result_kind(r) == 'ok':
            begun.append((s, r.args[2][0]))
            if s.mon[1][0] is None:
                ctx.viol('start:no-begin', '%s returns a transaction without beginning a storage transaction' % mon.what, I.trace(s))
            if s.mon[1][1:] != (0, 0):
                ctx.viol('start:ended', '%s returns a transaction that is already committed or rolled back' % mon.what, I.trace(s))
    if not begun:
        raise Missing('a successful path of ' + mon.what)
    ctx.count('begin_states', len(begun))
    s1, txn = begun[0]
    root = T('H', I.site(0, -5), 0, 'txn')
    s1 = s1.copy()
    s1.mem[root] = txn
    tref = T('ref', root, ())
    # commit and rollback
    for n, want in (('commit', (1, 0)), ('rollback', (0, 1))):
        mon.what = txn_methods[n].np
        oks = 0
        for s, r in runb(F, I, txn_methods[n], [tref], s1, 1):
            k = result_kind(r, s, I)
            ctx.count('exit_obligations')
            got = s.mon[1][1:]
            if k != 'err' and got != want:
                ctx.viol('%s:ok' % mon.what, '%s can report success having made %d commits and %d rollbacks of the '
                         'transaction' % ((mon.what,) + got), I.trace(s))
            if k != 'ok' and got != (0, 0):
                ctx.viol('%s:err' % mon.what, '%s can report failure although the transaction was ended' % mon.what, I.trace(s))
            oks += k != 'err'
        if not oks:
            ctx.viol('%s:never-ok' % mon.what, '%s has no successful path' % mon.what)
    # operations
    mon.what = txn_methods['collection'].np
    cols = runb(F, I, txn_methods['collection'], [tref, T('par', 'col_name')], s1, 2)
    if not cols:
        raise Missing('a path of Transaction::collection')
    s2, col = cols[0]
    s2 = s2.copy()
    croot = T('H', I.site(0, -6), 0, 'col')
    s2.mem[croot] = col
    cref = T('ref', croot, ())
    coladt = col.args[0].rsplit('::', 1)[-1] if col.op == 'agg' else None
    ops = impl_methods(F, 'CollectionT', coladt) if coladt else []
    for b in ops:
        mon.what = b.np
        mon.cover = {}
        c0 = mon.cursors
        args = [cref] + [T('par', (b.name, i)) for i in range(1, b.argc)]
        outs = follow(F, I, mon, b, args, s2)
        ctx.count('operations')
        for s, r in outs:
            ctx.count('exit_obligations')
            _, c, rb = s.mon[1]
            if c or rb:
                ctx.viol('%s:ends' % b.np, '%s %s the explicit transaction it was issued through'
                         % (b.np, 'commits' if c else 'rolls back'), I.trace(s))
        ctx.count('storage_calls', sum(mon.cover.values()))
        if mon.cover:
            ctx.count('operations_with_storage_calls')
        ctx.sample('%s: storage calls %s, cursor runs %d' % (b.np, mon.cover, mon.cursors - c0), 20)
    for k, (m, t) in mon.viol.items():
        ctx.viol(k, m, t)
    ctx.absorb(I)
    # destructors
    commits = cg.callers((COMMIT,))
    for a in F.adts.values():
        d = a.get('drop')
        if d:
            ctx.count('destructors')
            if d in commits:
                ctx.viol('drop:%s' % nm(F, d), 'the destructor %s reaches a commit: %s'
                         % (nm(F, d), ' -> '.join(nm(F, x) for x in cg.path(d, {COMMIT}))))
    ctx.floor('operations_with_storage_calls', 13)
    ctx.count('builder_methods', len(mon.builders))
    ctx.floor('builder_methods', 4)
    ctx.floor('destructors', 4)
