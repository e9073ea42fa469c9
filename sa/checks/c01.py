"""C01: acknowledged writes are durable."""
from txnmon import *
from checks import c02

NON_TXN_WRITES = ('rocksdb_put', 'rocksdb_write', 'rocksdb_delete', 'rocksdb_merge', 'rocksdb_transactiondb_put',
                  'rocksdb_transactiondb_write', 'rocksdb_transactiondb_delete', 'rocksdb_transactiondb_merge',
                  'rocksdb_put_cf', 'rocksdb_delete_cf', 'rocksdb_transactiondb_put_cf', 'rocksdb_transactiondb_delete_cf')
# settings of the engine that make an acknowledged commit lossy
LOSSY = ('manual_wal_flush', 'disable_WAL', 'disable_wal', 'unordered_write', 'wal_recovery_mode', 'skip_stats_update',
         'prepare_for_bulk_load', 'WAL_ttl', 'WAL_size_limit', 'avoid_flush_during_recovery')


class Mon(c02.Mon):
    """State: (phase of each transaction, (options handle, sync, wal disabled) ...)."""

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK, BEGIN, 'rocksdb_writeoptions_set_sync', 'rocksdb_writeoptions_create',
                'rocksdb_writeoptions_disable_WAL')

    def on_event(self, I, st, rest, name, failed, info, args=()):
        ph, opts = rest
        o = {x[0]: x[1:] for x in opts}
        if name == 'rocksdb_writeoptions_set_sync' and len(args) == 2:
            _, w = o.get(args[0], (0, 0))
            v = I.known(st, args[1])
            o[args[0]] = (0 if v is None or v == 0 else 1, w)
        elif name == 'rocksdb_writeoptions_disable_WAL' and len(args) == 2:
            s, _ = o.get(args[0], (0, 0))
            v = I.known(st, args[1])
            o[args[0]] = (s, 0 if v == 0 else 1)
        elif name == BEGIN and len(args) >= 2:
            s, w = o.get(args[1], (0, 0))
            self.begins += 1
            if not s:
                self.violation('begin:not-synced:' + info.body.np, 'a storage transaction is begun in %s with write options that do not ask '
                               'for a synchronous commit, so an acknowledged commit may be lost in a crash' % info.where(), I, st)
            if w:
                self.violation('begin:no-wal:' + info.body.np, 'a storage transaction is begun in %s with write options that disable the '
                               'write-ahead log' % info.where(), I, st)
            if args[1].op == 'c':
                self.violation('begin:no-options:' + info.body.np, 'a storage transaction is begun in %s without write options' % info.where(), I, st)
        ph = c02.Mon.on_event(self, I, st, ph, name, failed, info, args)
        return (ph, tuple(sorted(((k,) + v for k, v in o.items()), key=lambda x: x[0].n)))


class CloseMon(StorageMon):
    """State: handles whose write-ahead log has been flushed."""
    fork_errors = True
    exit_limit = 4

    def relevant_events(self):
        return ('rocksdb_transactiondb_close', 'rocksdb_close', 'rocksdb_transactiondb_flush_wal', 'rocksdb_flush_wal')

    def ffi_result(self, I, st, name, args, info, failed):
        f, fl = st.mon
        if name.endswith('_flush_wal') and not failed and args and I.known(st, args[1]) not in (None, 0):
            st.mon = (f, fl | {args[0]})
        elif name.endswith('_flush_wal') and failed:
            st.mon = (f, fl | {args[0]}) if self.attempt else st.mon

    attempt = True

    def ffi(self, I, st, name, args, info):
        if name in ('rocksdb_transactiondb_close', 'rocksdb_close'):
            self.closes += 1
            if args[0] not in st.mon[1]:
                self.violation('close:' + info.body.np, 'the storage handle is closed in %s without its write-ahead log having been '
                               'flushed and synced first' % info.where(), I, st)
        return None


def check(ctx):
    F = ctx.F
    ctx.rule('(1) On every path of every committing operation, success requires a successful rocksdb_transaction_commit '
             'after the last write, on a transaction begun with write options whose last set_sync is true and whose '
             'write-ahead log is not disabled. (2) No engine setting that makes acknowledged commits lossy and no write '
             'outside a transaction occurs anywhere. (3) Every path to closing the storage handle flushes and syncs the '
             'write-ahead log first.')
    cg = callgraph(F)
    writers = cg.callers(WRITES)
    entries = impl_methods(F, 'CollectionT', 'Collection') + [b for b in inherent(F, 'Database') if b.pub]
    entries = [b for b in entries if b.id in writers and 'Result' in ty_s(b)]
    for b in entries:
        mon = Mon(F)
        mon.entry, mon.begins = b, 0
        I, outs = run_entry(F, b, mon, ((), ()))
        ctx.absorb(I)
        ctx.count('entry_points')
        for s, r in outs:
            phs = {p for _, p in s.mon[1][0]}
            k = result_kind(r, s, I)
            ctx.count('exit_obligations')
            if k != 'err' and ('dirty' in phs or 'rolled-back' in phs):
                mon.violation('%s:ok-uncommitted' % b.np, '%s can return success although its changes were not committed' % b.np, I, s)
        ctx.count('transactions_begun', mon.begins)
        for k, (m, t) in mon.viol.items():
            if 'write-after' in k or 'double' in k:
                continue
            ctx.viol(k, m, t)
    # explicit transactions: begin and commit
    for adt, meth in (('Database', 'start_transaction'),):
        b = [x for x in inherent(F, adt) if x.pub and 'transaction::Transaction' in ty_s(x)]
        for x in b:
            mon = Mon(F)
            mon.entry, mon.begins = x, 0
            I, outs = run_entry(F, x, mon, ((), ()))
            ctx.absorb(I)
            ctx.count('entry_points')
            ctx.count('transactions_begun', mon.begins)
            for k, (m, t) in mon.viol.items():
                ctx.viol(k, m, t)
    for x in [x for x in inherent(F, 'Transaction') if x.pub and x.id in cg.callers((COMMIT,))]:
        mon = Mon(F)
        mon.entry, mon.begins = x, 0
        I, outs = run_entry(F, x, mon, ((), ()))
        ctx.count('entry_points')
        if 'commit' in x.name:
            for s, r in outs:
                ctx.count('exit_obligations')
                if result_kind(r, s, I) != 'err' and not any(p in ('committed', 'empty-commit') for _, p in s.mon[1][0]):
                    ctx.viol('%s:ok-uncommitted' % x.np, '%s can return success without a successful commit' % x.np, I.trace(s))
    # whole-program: FFI used
    for b in F.by_id.values():
        for f, bb, callee in fn_consts(b):
            n = f['n']
            if n.startswith('rocksdb_') and b.crate.name != 'polodb_librocksdb_sys':
                ctx.count('ffi_call_sites')
                if n in NON_TXN_WRITES:
                    ctx.viol('nontxn:%s:%s' % (n, b.np), '%s writes outside a transaction with %s' % (b.np, n))
                if any(x in n for x in LOSSY):
                    a = b.blocks[bb]['t'][2]
                    last = a[-1] if a else None
                    if not (isinstance(last, dict) and 'k' in last and str(last['k'].get('i', '')) == '0'):
                        ctx.viol('setting:%s:%s' % (n, b.np), '%s uses %s, which makes acknowledged commits lossy' % (b.np, n))
    # closing
    closers = [d for a in F.adts.values() for d in [a.get('drop')] if d in cg.callers(('rocksdb_transactiondb_close', 'rocksdb_close'))]
    if not closers:
        ctx.viol('close:none', 'no destructor closes the storage handle')
    for d in sorted(set(closers)):
        b = F.by_id[d]
        mon = CloseMon(F)
        mon.closes = 0
        I, outs = run_entry(F, b, mon, frozenset())
        ctx.absorb(I)
        ctx.count('close_paths', mon.closes)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
    ctx.floor('entry_points', 14)
    ctx.floor('transactions_begun', 12)
    ctx.floor('close_paths', 1)
    ctx.floor('ffi_call_sites', 30)
