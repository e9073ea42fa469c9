"""C20: reads never write."""
from txnmon import *
from checks.c03 import follow, runb


class Mon(TxnMon):
    """State: unused. Records the writes reached."""
    what, read_only = '', True

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK, BEGIN, 'rocksdb_transaction_create_iterator')

    def on_event(self, I, st, rest, name, failed, info, args=()):
        return rest

    def ffi(self, I, st, name, args, info):
        self.seen[name] = self.seen.get(name, 0) + 1
        w = name in WRITES or ('put' in name or 'delete' in name or 'merge' in name or name.endswith('_write'))
        if w and name.startswith('rocksdb_'):
            self.violation('%s:%s' % (self.what, name), '%s, which %s, reaches %s in %s' % (
                self.what, 'only reads' if self.read_only else 'addresses a collection without creating it', name, info.where()), I, st)

    def vm_exec(self, I, st, vm, args, info):
        src, ops = self.program_of(I, st, vm)
        self.seen['VM::execute'] = self.seen.get('VM::execute', 0) + 1
        if self.read_only:
            bad = sorted(o for o in ops if self.effects[o] & set(WRITES))
            if bad:
                self.violation('%s:program' % self.what, '%s, which only reads, runs a program (%s) that contains the writing '
                               'instructions %s' % (self.what, src, bad), I, st)
        out = []
        for res in ('ok', 'err'):
            s = st.copy()
            r0, p = I.deref_loc(args[0])
            self.after_exec(I, s, r0, p, info, res)
            out.append((s, mk_ok(UNIT) if res == 'ok' else mk_err(T('call', 'VM::execute/error', info.sid, 0))))
        return out


READS = ('count_documents', 'find', 'find_one', 'aggregate')
NOCREATE = ('update_one', 'update_many', 'delete_one', 'delete_many')


def check(ctx):
    F = ctx.F
    ctx.rule('Every reading operation (count_documents, find, find_one, aggregate with the cursors they return, '
             'list_collection_names), inside and outside a transaction, is interpreted on all paths: no storage write may '
             'be reached and every program it runs must consist of instructions whose interpretation reaches no write. '
             'update and delete without upsert may write only from inside the program they run, so they cannot create '
             'the collection they address.')
    entries = []
    for adt in ('Collection', 'TransactionalCollection'):
        ms = {b.name: b for b in impl_methods(F, 'CollectionT', adt)}
        for n in READS + NOCREATE:
            if n not in ms:
                raise Missing('%s::%s' % (adt, n))
            entries.append((ms[n], n in READS))
    for b in inherent(F, 'Database'):
        if b.pub and 'list' in b.name and 'Result' in ty_s(b):
            entries.append((b, True))
    # lazily built queries with their options set arbitrarily
    for adt in ('Find', 'Aggregate'):
        for b in inherent(F, adt):
            if b.pub and b.name == 'run':
                entries.append((b, True))
    for b, ro in entries:
        mon = Mon(F)
        mon.what, mon.read_only, mon.seen, mon.cursors = b.np, ro, {}, 0
        I = Interp(F, mon)
        s0 = St()
        s0.mon = (0, ())
        args = [T('par', n) for n in range(b.argc)]
        I.pin = tuple(args)
        outs = follow(F, I, mon, b, args, s0)
        ctx.absorb(I)
        ctx.count('operations')
        ctx.count('exit_obligations', len(outs))
        ctx.count('storage_calls', sum(v for k, v in mon.seen.items()))
        ctx.count('programs_checked', mon.seen.get('VM::execute', 0))
        ctx.sample('%s: %s' % (b.np, mon.seen), 30)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
        if not mon.seen:
            ctx.viol('%s:nothing' % b.np, 'no storage call was reached when interpreting %s' % b.np)
    ctx.floor('operations', 18)
    ctx.floor('programs_checked', 10)
