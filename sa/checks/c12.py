"""C12: names are validated so namespaces stay disjoint."""
from txnmon import *
from checks.c03 import follow

RESERVED = ['\0', '\n', '\r', '\t', '$', '.']


def error_constructors(F, variant):
    """Bodies (closures attributed to the function that creates them) that build a given variant of Error."""
    err = adt_named(F, 'Error')
    idx = [i for i, v in enumerate(F.adts[err]['v']) if v[0] == variant]
    if not idx:
        raise Missing('Error::' + variant)
    out = set()
    for b in F.core.bodies:
        if b.promoted is not None:
            continue
        hit = False
        for blk in b.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == err and s[2][1][2] == idx[0]:
                    hit = True
        for f, bb, callee in fn_consts(b):
            if f['d'].endswith('Error::' + variant) or f['p'].endswith('Error::' + variant):
                hit = True
        if hit:
            x = b
            while x.kind == 'closure' and x.parent in F.by_id:
                x = F.by_id[x.parent]
            out.add(x.id)
    return out


def validators(F, variant):
    """Functions that reject a name and do nothing else: they build the error and reach no storage call."""
    cg = callgraph(F)
    storage = cg.callers(STORAGE_CALLS)
    cons = error_constructors(F, variant)
    v = {i for i in cons if i not in storage and 'Result' in ty_s(F.by_id[i])}
    # wrappers that only delegate
    return v


STORAGE_CALLS = tuple('rocksdb_transaction_' + x for x in ('get', 'get_for_update', 'put', 'delete', 'create_iterator'))


def tested_chars(F, vid):
    """Constants a validator (with its closures and local callees) compares characters with."""
    cg = callgraph(F)
    chars, empty = set(), False
    def chk(x, crate):
        if isinstance(x, dict):
            k = x.get('k')
            if isinstance(k, dict):
                t = k.get('t')
                s = crate.types[t]['s'] if isinstance(t, int) else ''
                if 'i' in k and s in ('char', 'u8'):
                    chars.add(chr(int(k['i'])))
                if 's' in k:
                    chars.update(k['s'])
                if 'b' in k and isinstance(k['b'], list):
                    chars.update(chr(c) for c in k['b'])
            return
        if isinstance(x, (list, tuple)):
            for y in x:
                chk(y, crate)
    for i in cg.reach([vid]):
        b = F.by_id.get(i)
        if b is None or b.ext:
            continue
        bodies = [b] + [p for (o, n), p in b.crate.promoted.items() if o == b.id]
        for q in bodies:
            for blk in q.blocks:
                for s in blk['s']:
                    chk(s, b.crate)
                t = blk['t']
                if t[0] == 'switch':
                    ts = None
                    o = t[1].get('c') or t[1].get('m')
                    if o and len(o) == 1 and isinstance(q.locals[o[0]], int):
                        ts = b.crate.types[q.locals[o[0]]]['s']
                    if ts in ('char', 'u8') or ts is None:
                        for v, _ in t[2]:
                            chars.add(chr(int(v)) if 0 <= int(v) < 0x110000 else '?')
                else:
                    chk(t, b.crate)
        for f, bb, callee in fn_consts(b):
            if f['n'] in ('is_empty', 'len'):
                empty = True
            if f['n'] == 'is_control' or f['n'] == 'is_ascii_control':
                chars.update(chr(c) for c in range(32))
            if f['n'] == 'is_whitespace' or f['n'] == 'is_ascii_whitespace':
                chars.update('\n\r\t')
            if f['n'] in ('is_alphanumeric', 'is_ascii_alphanumeric'):
                chars.update(RESERVED)
    return chars, empty


class Mon(TxnMon):
    """State: the set of name terms that passed a validator."""
    what, mode = '', 'col'

    def relevant_events(self):
        return STORAGE_CALLS + (BEGIN,)

    def call2(self, I, st, fn, b, args, info):
        if b is not None and b.id in self.val:
            kinds = self.val[b.id]
            self.checked += 1
            good, bad = st.copy(), st.copy()
            n = I.deepval(st, args[-1])
            good.mon = (st.mon[0], st.mon[1] | {(k, n) for k in kinds})
            return [(good, mk_ok(UNIT)), (bad, mk_err(T('call', b.np + '/rejected', info.sid, 0)))]
        return TxnMon.call2(self, I, st, fn, b, args, info)

    def touch(self, I, st, what, info):
        if self.mode == 'col':
            if not any(k == 'col' and (self.pin & n.atoms) for k, n in st.mon[1]):
                self.violation('%s:unchecked' % self.what, '%s accesses the storage (%s in %s) on a path on which the collection name '
                               'has not been validated' % (self.what, what, info.where()), I, st)
        elif what in (PUT,):
            if not any(k == 'idx' and (self.pin & n.atoms) for k, n in st.mon[1]):
                self.violation('%s:unchecked-index' % self.what, '%s writes (%s in %s) on a path on which the custom index name '
                               'has not been validated' % (self.what, what, info.where()), I, st)

    def ffi(self, I, st, name, args, info):
        if name in STORAGE_CALLS:
            self.touched += 1
            self.touch(I, st, name, info)

    def vm_exec(self, I, st, vm, args, info):
        self.touched += 1
        self.touch(I, st, 'running a program', info)
        s1, s2 = st.copy(), st.copy()
        for s in (s1, s2):
            r0, p = I.deref_loc(args[0])
            self.after_exec(I, s, r0, p, info, 'ok')
        return [(s1, mk_ok(UNIT)), (s2, mk_err(T('call', 'VM::execute/error', info.sid, 0)))]


def run_one(ctx, F, b, val, mode, args, pin, st=None):
    mon = Mon(F)
    mon.what, mon.val, mon.mode, mon.pin, mon.cursors = b.np, val, mode, pin, 0
    mon.checked = mon.touched = 0
    I = Interp(F, mon)
    s0 = st or St()
    s0.mon = (0, frozenset())
    I.pin = tuple(args)
    outs = follow(F, I, mon, b, args, s0)
    ctx.absorb(I)
    ctx.count('operations' if mode == 'col' else 'index_creations')
    ctx.count('storage_accesses_checked', mon.touched)
    ctx.sample('%s (%s): %d storage accesses, %d validations' % (b.np, mode, mon.touched, mon.checked), 40)
    for k, (m, t) in mon.viol.items():
        ctx.viol(k, m, t)
    if not mon.touched:
        ctx.viol('%s:nothing' % b.np, 'no storage access was reached when interpreting %s' % b.np)


def check(ctx):
    F = ctx.F
    ctx.rule('Functions that only reject a name (they build the illegal-name error and reach no storage call) are the '
             'validators; each must compare characters with every reserved character and test for emptiness. On every path '
             'of every operation that names a collection a validator must have accepted the name before the first storage '
             'access, and on every path of index creation with a custom name before the first write.')
    val = {}
    for kind, variant in (('col', 'IllegalCollectionName'), ('idx', 'IllegalIndexName')):
        vs = validators(F, variant)
        if not vs:
            raise Missing('a validator of ' + variant)
        for v in vs:
            val.setdefault(v, set()).add(kind)
            chars, empty = tested_chars(F, v)
            ctx.count('validators')
            for c in RESERVED:
                ctx.count('reserved_characters_checked')
                if c not in chars:
                    ctx.viol('validator:%s:%r' % (nm(F, v), c), '%s does not test for the reserved character %r' % (nm(F, v), c))
            if not empty:
                ctx.viol('validator:%s:empty' % nm(F, v), '%s does not test for the empty name' % nm(F, v))
    val = {k: tuple(sorted(v)) for k, v in val.items()}
    entries = []
    for adt in ('Collection', 'TransactionalCollection'):
        entries += [b for b in impl_methods(F, 'CollectionT', adt) if 'Result' in ty_s(b) or b.name in ('find', 'aggregate')]
    entries += [b for adt in ('Find', 'Aggregate') for b in inherent(F, adt) if b.pub and b.name == 'run']
    cg = callgraph(F)
    storage = cg.callers(STORAGE_CALLS)
    for b in inherent(F, 'Database'):
        if b.pub and b.id in storage and any(ty_s(b, i).endswith('str') for i in range(2, b.argc + 1)):
            entries.append(b)
    for b in entries:
        args = [T('par', n) for n in range(b.argc)]
        dbm = b.self_ty is not None and 'Database' in b.crate.types[b.self_ty]['s']
        run_one(ctx, F, b, val, 'col', args, {args[1]} if dbm else {args[0]})
    # custom index names
    model, opts = adt_named(F, 'IndexModel'), adt_named(F, 'IndexOptions')
    mf = [f[0] for f in F.adts[model]['v'][0][2]]
    of = [f[0] for f in F.adts[opts]['v'][0][2]]
    if 'options' not in mf or 'name' not in of:
        raise Missing('IndexModel.options / IndexOptions.name')
    name = T('par', 'index-name')
    o = T('agg', opts, 0, tuple(mk_some(name) if f == 'name' else T('par', 'opt-' + f) for f in of))
    m = T('agg', model, 0, tuple(mk_some(o) if f == 'options' else T('par', 'model-' + f) for f in mf))
    for adt in ('Collection', 'TransactionalCollection'):
        for b in impl_methods(F, 'CollectionT', adt):
            if b.name == 'create_index':
                run_one(ctx, F, b, val, 'idx', [T('par', 0), m], {name})
    ctx.floor('operations', 30)
    ctx.floor('index_creations', 2)
    ctx.floor('validators', 2)
