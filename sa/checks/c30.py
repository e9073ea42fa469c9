"""C30: a collection behaves the same inside and outside a transaction."""
from txnmon import *


def canon(F, t, d=0):
    """A term without call-site identities, transactions and database handles."""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(canon(F, x, d) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    if o == 'agg':
        nm_ = str(a[0]).rsplit('::', 1)[-1]
        if nm_ in ('TransactionInner', 'Weak', 'Arc'):
            return nm_
        ad = F.adts.get(a[0])
        fs = a[2]
        if ad is not None and a[1] < len(ad['v']):
            fl = ad['v'][a[1]][2]
            out = []
            for i, x in enumerate(fs):
                n = fl[i][0] if i < len(fl) else str(i)
                ty = field_ty(F, fl[i]) if i < len(fl) else ''
                if a[0].startswith('polodb_core') and (n in ('db', 'txn') or 'Transaction' in ty or 'Weak' in ty):
                    continue
                out.append('%s:%s' % (n, canon(F, x, d + 1)))
            return '%s#%d{%s}' % (nm_, a[1], ','.join(out))
        return '%s#%d{%s}' % (nm_, a[1], ','.join(canon(F, x, d + 1) for x in fs))
    if o == 'par':
        return 'par%s' % (a[0],)
    if o == 'call':
        return '%s(%s)' % (a[0], ','.join(canon(F, x, d + 1) for x in a[3:]))
    if o in ('hav', 'wid'):
        return o
    if o in ('H',):
        return 'H'
    if o == 'ref':
        return '&%s%s' % (canon(F, a[0], d + 1), ''.join(elem_s(e) for e in a[1]))
    if o == 'fld':
        # fields of the handle by meaning, not by position
        if a[0].op == 'deref' and a[0].args[0].op == 'par' and a[0].args[0].args[0] == 0:
            return 'self.field'
        return '%s.%s' % (canon(F, a[0], d + 1), elem_s(a[1]))
    if o == 'c':
        return repr(a[1])
    if o == 'fn':
        return FNS[a[0]]['p']
    return '%s(%s)' % (o, ','.join(canon(F, x, d + 1) for x in a))


class Mon(TxnMon):
    """Stops at the functions that take the transaction; records which and with what."""
    exit_limit = 30
    join_limit = 60
    err_detail = True
    deep = False

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK, BEGIN)

    def call2(self, I, st, fn, b, args, info):
        r = TxnMon.call2(self, I, st, fn, b, args, info)
        if r is not None:
            if self.deep:
                self.rec.add('program %s(%s)' % (b.np, ', '.join(canon(self.F, I.deepval(st, a)) for a in args)))
            return r
        if b is None or self.deep:
            return None
        if b.id in self.inner:
            vals = []
            for i, a in enumerate(args):
                if 'TransactionInner' in ty_s(b, i + 1) or i == 0:
                    continue
                vals.append(canon(self.F, I.deepval(st, a)))
            self.rec.add('%s(%s)' % (b.np, ', '.join(vals)))
            ret = T('call', b.np, info.sid, 0)
            if b.crate.types[b.locals[0]].get('adt') == RESULT:
                return [(st.copy(), mk_ok(T('call', b.np + '/ok', info.sid, 0))), (st.copy(), mk_err(T('call', b.np + '/err', info.sid, 0)))]
            return [(st, ret)]
        return None

    def ffi(self, I, st, name, args, info):
        if self.deep and name in (PUT, DELETE, 'rocksdb_transaction_create_iterator', 'rocksdb_transaction_get_for_update'):
            self.rec.add(name + ' in ' + info.body.np)

    def vm_exec(self, I, st, vm, args, info):
        if not self.deep:
            self.rec.add('execute')
        return TxnMon.vm_exec(self, I, st, vm, args, info)


def profile(F, b, inner, deep):
    mon = Mon(F)
    mon.rec, mon.inner, mon.deep = set(), inner, deep
    if deep:
        mon.exit_limit, mon.join_limit, mon.err_detail = 1, 8, False
    I, outs = run_entry(F, b, mon, 0)
    rets = set()
    for s, r in outs:
        if result_kind(r, s, I) == 'err':
            continue
        rets.add(canon(F, I.deepval(s, r)))
    return I, mon.rec, rets


def check(ctx):
    F = ctx.F
    ctx.rule('For every method of the collection trait the implementations for collections inside and outside a '
             'transaction are interpreted down to the functions that take the transaction: both must call the same '
             'functions with the same arguments (the transaction aside) and build their result from them in the same '
             'way. If the functions differ, the storage calls and programs below them are compared instead.')
    inner = {b.id for b in F.core.bodies if b.promoted is None and b.kind == 'AssocFn' and b in set(inherent(F, 'DatabaseInner'))
             and any('TransactionInner' in ty_s(b, i) for i in range(1, b.argc + 1))}
    A = {b.name: b for b in impl_methods(F, 'CollectionT', 'Collection')}
    B = {b.name: b for b in impl_methods(F, 'CollectionT', 'TransactionalCollection')}
    if set(A) != set(B):
        ctx.viol('methods', 'the two implementations have different methods: %s' % sorted(set(A) ^ set(B)))
    for n in sorted(set(A) & set(B)):
        I1, r1, v1 = profile(F, A[n], inner, False)
        I2, r2, v2 = profile(F, B[n], inner, False)
        ctx.absorb(I1)
        ctx.absorb(I2)
        ctx.count('methods_compared')
        ctx.count('database_calls_compared', len(r1 | r2))
        ctx.sample('%s: %s -> %s' % (n, sorted(r1), sorted(v1)), 30)
        if r1 == r2 and v1 == v2:
            continue
        I1, d1, w1 = profile(F, A[n], inner, True)
        I2, d2, w2 = profile(F, B[n], inner, True)
        ctx.count('methods_compared_below')
        if d1 == d2 and (v1 == v2 or w1 == w2):
            continue
        diff = sorted((r1 ^ r2) or (v1 ^ v2) or (d1 ^ d2) or (w1 ^ w2))
        ctx.viol('%s' % n, '%s and %s do different things: %s' % (A[n].np, B[n].np, '; '.join(diff)[:600]))
    ctx.floor('methods_compared', 15)
    ctx.floor('database_calls_compared', 14)
