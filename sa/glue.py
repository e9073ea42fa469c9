"""What the operations of a collection make of the programs they run: which program is compiled from which arguments, how often
it runs, which registers of the machine the result is built from, and what is stored besides (upserts)."""
from keys import *
from query import *


class GlueMon(KeyMon):
    """rest: (compiled programs, runs, document puts). A run leaves the known values R2/R4 in the machine's counters."""
    exit_limit = 400
    join_limit = 60
    err_detail = True
    R2, R4 = T('par', 'register r2'), T('par', 'register r4')

    def __init__(self, F, n_rows=0, indexes=(), unique=False):
        KeyMon.__init__(self, F)
        self.n_rows = n_rows
        fields = F.adts[self.vm_adt]['v'][0][2]
        self.regs = {f[0]: i for i, f in enumerate(fields)}
        for r in ('r2', 'r4', 'state'):
            if r not in self.regs:
                raise Missing('VM.' + r)
        self.runs = 0
        self.state_adt = F.core.types[fields[self.regs['state']][1]]['adt']
        self.states = [x[0] for x in F.adts[self.state_adt]['v']]
        self.spec = spec_of(F, indexes, unique) if self.unroll else None

    def call2(self, I, st, fn, b, args, info):
        if self.unroll and fn['p'].endswith('::to_document') and fn['p'].startswith('bson::'):
            v = I.deepval(st, args[0])
            while v.op == 'pure' and v.args[0] == 'derefp':
                v = v.args[1]
            if doc_items(v) is not None:
                return [(st, mk_ok(v))]
        if fn['p'].endswith('::from_slice') and fn['p'].startswith('bson::'):
            c, runs, puts, *more = st.mon[1]
            st.mon = (st.mon[0], (c | {'catalog record'}, runs, puts, *more))
            if self.unroll:
                return [(st, mk_ok(self.spec))]
        if self.unroll and fn.get('n') == 'chars' and len(args) == 1:
            v = I.deepval(st, args[0])
            if v.op == 'c' and v.args[0] == 's':
                return [(st, models.it('list', arr_of(*[I_(ord(x)) for x in v.args[1]])))]
        if self.unroll and b is not None and b.kind == 'AssocFn' and b.argc and b.crate.types[b.locals[0]].get('adt') == self.vm_adt:
            # a new machine: made of the arguments of the field's type, not yet run
            fs = []
            for i, f in enumerate(self.F.adts[self.vm_adt]['v'][0][2]):
                same = [a for j, a in enumerate(args) if b.locals[j + 1] == f[1]]
                fs.append(same[0] if len(same) == 1 else T('agg', self.state_adt, self.states.index('Init'), ()) if f[0] == 'state' else T('call', 'VM.' + f[0], info.sid, 0))
            return [(st, T('agg', self.vm_adt, 0, tuple(fs)))]
        if b is not None and b.id in self.progs:
            flags, docs = [], []
            for i, a in enumerate(args):
                t = ty_s(b, i + 1)
                if t == 'bool':
                    flags.append(I.known(st, a) if not is_c(a) else a.args[1])
                elif 'Document' in t and 'CollectionSpec' not in t:
                    docs.append(I.deepval(st, a))
            c, runs, puts, *more = st.mon[1]
            st.mon = (st.mon[0], (c | {(b.name, tuple(flags), tuple(docs))}, runs, puts, *more))
            r = KeyMon.call2(self, I, st, fn, b, args, info)
            for s2, v in r:
                if result_kind(v) == 'err':
                    s2.mon = (s2.mon[0], (s2.mon[1][0] | {'failed to compile'},) + s2.mon[1][1:])
            return r
        return KeyMon.call2(self, I, st, fn, b, args, info)

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        c, runs, puts, *more = rest
        if self.unroll and name in (PUT, DELETE) and len(puts) < 16:
            return (c, runs, puts + ((name, k, val),), *more)
        if name == PUT and kind_of(k) == 'doc' and not self.unroll:
            return (c, runs, min(puts + 1, 4), *more)
        return rest

    def do_ffi(self, I, st, n, args, info):
        if 'create_iterator' in n or n in (GET, GFU):
            c, runs, puts, *more = st.mon[1]
            st.mon = (st.mon[0], (c | {'looked'}, runs, puts, *more))
        return KeyMon.do_ffi(self, I, st, n, args, info)

    def vm_exec(self, I, st, vm, args, info):
        self.runs += 1
        src, ops = self.program_of(I, st, vm)
        r0, p = I.deref_loc(args[0])
        v = I.load(st, r0, p)
        if v.op != 'agg' or v.args[0] != self.vm_adt:
            raise Missing('the machine in %s' % info.where())
        names = tuple(sorted(x.rsplit('::', 1)[-1] for x in src)) if src else ('?',)
        c, runs, puts, *more = st.mon[1]
        out = []

        def end(mark, result, regs):
            s = st.copy()
            s.mon = (s.mon[0], (c, (runs + (mark,))[:8], puts, *more))
            fs = [x if i in self.vm_keep else T('hav', info.sid, 0, ('vm', i)) for i, x in enumerate(v.args[2])]
            for n, x in regs.items():
                fs[self.regs[n]] = x
            I.store(s, r0, p, T('agg', v.args[0], v.args[1], tuple(fs)))
            out.append((s, result))
            return s
        state = {n: T('agg', self.state_adt, i, ()) for i, n in enumerate(self.states)}
        if self.n_rows and sum(r[0] == 'row' for r in runs) < self.n_rows:
            end(('row',), mk_ok(UNIT), {'state': state['HasRow']})
        end(('ran',) + names, mk_ok(UNIT), {'state': state['Halt'], 'r2': I_(0), 'r4': I_(0)})
        if not self.n_rows:
            s = end(('ran',) + names, mk_ok(UNIT), {'state': state['Halt'], 'r2': self.R2, 'r4': self.R4})
            for t in casts(self.R2):
                I.assume(s, mk_eq(t, I_(0)), 0)
                I.assume(s, T('lt', I_(0), t), 1)
        end(('failed',) + names, mk_err(T('call', 'VM::execute/error', info.sid, 0)), {'state': state['Halt']})
        return out


class UnrollMon(EmitMon, GlueMon):
    """The same without joins: collections, documents and rows are known and finite."""
    unroll = True
    weight_limit = join_limit = exit_limit = 10 ** 9
    depth_limit = 60

    def __init__(self, F, n_rows=2, indexes=(), unique=False):
        GlueMon.__init__(self, F, n_rows, indexes, unique)
        self.panics = []
        self.enc_ids = self.enc

    def opaque_body(self, I, b):
        return b.id in self.enc or b.id in self.enc1 or GlueMon.opaque_body(self, I, b)

    def inline(self, I, b, depth):
        if self.opaque_body(I, b):
            return False
        return True if b.crate is self.F.core else None

    def call(self, I, st, fn, args, info):
        r = EmitMon.call(self, I, st, fn, args, info)
        return GlueMon.call(self, I, st, fn, args, info) if r is None else r


def casts(t, d=2):
    out = [t]
    if d:
        for w in ('u64', 'usize'):
            out += casts(T('cast', w, t), d - 1)
    return out


def result_fields(F, v):
    """{field name: value} of an Ok(struct)."""
    if v.op == 'agg' and v.args[0] == RESULT and v.args[1] == 0:
        v = v.args[2][0]
    if v.op == 'agg' and v.args[0] in F.adts:
        fl = F.adts[v.args[0]]['v'][0][2]
        return {f[0]: x for f, x in zip(fl, v.args[2])}
    return None


def uncast(t):
    while t.op == 'cast':
        t = next(x for x in t.args if isinstance(x, Term))
    return t


def option_values(F):
    """The values of the update options: absent, false, true."""
    adt = adt_named(F, 'UpdateOptions')
    fl = F.adts[adt]['v'][0][2]
    if [f[0] for f in fl] != ['upsert']:
        raise Missing('UpdateOptions has fields other than upsert')
    return [(n, T('agg', adt, 0, (v,))) for n, v in (('no upsert option', NONE), ('upsert: false', mk_some(I_(0))), ('upsert: true', mk_some(I_(1))))]


def run_method(F, b, mon, options=None, update=None, docs=None):
    args = []
    for i in range(b.argc):
        t = ty_s(b, i + 1)
        if i == 0 and mon.unroll:
            adt = b.crate.types[b.self_ty]['adt']
            args.append(vref(T('agg', adt, 0, tuple(S_('col') if f[0] == 'name' else T('par', 'self.' + f[0]) for f in F.adts[adt]['v'][0][2]))))
        elif docs is not None and i == 1:
            args.append(docs)
        elif options is not None and 'UpdateOptions' in t:
            args.append(options)
        elif update is not None and i == 2 and t.endswith('Document'):
            args.append(update)
        else:
            args.append(T('par', i))
    return run_entry(F, b, mon, (frozenset(), (), () if mon.unroll else 0), args=args)


class Method:
    """One method of a collection, its paths and what they amount to."""

    def __init__(self, F, b, options=None, update=None, n_rows=0, docs=None, indexes=(), unique=False):
        self.F, self.b = F, b
        self.mon = UnrollMon(F, n_rows, indexes, unique) if n_rows else GlueMon(F)
        self.I, self.outs = run_method(F, b, self.mon, options, update, docs)
        self.oks = []
        names = [x[0] for x in F.adts[adt_named(F, 'Error')]['v']]
        gone = names.index('CollectionNotFound') if 'CollectionNotFound' in names else None
        for s, r in self.outs:
            if result_kind(r, s, self.I) == 'err':
                continue
            c, runs, puts, *more = s.mon[1]
            if 'failed to compile' in c or any(x[0] == 'failed' for x in runs):
                continue                    # a swallowed failure is another property's business
            if any(k.op == 'disc' and x == gone and k.args[0].op != 'agg' for k, x in s.facts.items()):
                continue                    # an error of unknown origin taken for the one that says there is no collection
            comp = sorted((x for x in c if isinstance(x, tuple)), key=repr)
            self.oks.append((s, self.I.deepval(s, r), comp, [x for x in runs if x[0] == 'ran'], sum(x[0] == 'row' for x in runs), puts, c))

    def judge(self, kind, many, upsert, has_set):
        """[(property, key, description)] for update / delete methods."""
        out = []

        def bad(p, k, d, s):
            out.append((p, k, d, self.I.trace(s)))
        for s, v, comp, runs, _, puts, c in self.oks:
            if len(runs) > 1 or len(comp) > 1:
                bad('C27', 'runs', 'runs %d programs (%d compiled)' % (len(runs), len(comp)), s)
                continue
            fs = result_fields(self.F, v)
            if fs is None:
                bad('C28', 'unknown', 'its result is not known: %s' % show(v)[:100], s)
                continue
            r2, r4 = (self.vals(s) if runs else (I_(0), I_(0)))
            if not runs:
                if 'looked' not in c:
                    bad('C27', 'idle', 'reports success without having looked for the collection', s)
                elif 'catalog record' in c and not puts:
                    bad('C27', 'idle', 'reports success without running anything although the collection exists', s)
            else:
                name, flags, docs = comp[0] if comp else ('?', (), ())
                want = {'update': ('compile_update',), 'delete': ('compile_delete',) + (('compile_delete_all',) if many else ())}[kind]
                if name not in want:
                    bad('C27', 'program', 'runs a program of %s' % name, s)
                    continue
                if name == 'compile_delete_all':
                    q = T('par', 1)
                    if self.empty(s, q) is not True:
                        bad('C27', 'program', 'deletes every document although the query is not known to be empty', s)
                else:
                    if len(flags) < 2 or flags[1] != many:
                        bad('C27', 'many', 'compiles its program for %s' % {0: 'one document', 1: 'many documents', None: 'an unknown number of documents'}[flags[1] if len(flags) > 1 else None], s)
                    given = [self.query_of(x) for x in docs]
                    if T('par', 1) not in given[:1]:
                        bad('C27', 'query', 'compiles its program from something other than the query it was given: %s' % (show(docs[0])[:100] if docs else '?'), s)
            n = fs.get('deleted_count') if kind == 'delete' else fs.get('matched_count')
            if n is None or self.val(n) is not r2:
                bad('C28', 'count', '%s is %s where the machine counted %s' % ('deleted_count' if kind == 'delete' else 'matched_count', show(n)[:100], show(r2)), s)
            if kind == 'update':
                m = fs.get('modified_count')
                if m is None or self.val(m) is not r4:
                    bad('C28', 'modified', 'modified_count is %s where the machine counted %s' % (show(m)[:100], show(r4)), s)
            want = 1 if upsert and r2 is I_(0) else 0
            if puts != want:
                k = 'upsert-without-set' if want and not puts and not has_set else 'upsert'
                why = 'no document matched and upsert was asked for' if want else 'documents matched' if r2 is not I_(0) else 'upsert was not asked for'
                bad('C27', k, 'inserts %s although %s%s' % ({0: 'no document', 1: 'a document'}.get(puts, 'several documents'), why,
                                                             '' if has_set else ' (the update has no $set)'), s)
        return out

    def vals(self, s):
        zero = self.I.known(s, mk_eq(GlueMon.R2, I_(0)))
        return (GlueMon.R2, GlueMon.R4) if zero == 0 else (I_(0), I_(0))

    def val(self, t):
        t = uncast(t)
        return t

    def empty(self, s, q):
        for t in (T('len', q), mk_len(q)):
            k = self.I.known(s, mk_eq(t, I_(0)))
            if k is not None:
                return bool(k)
        return None

    @staticmethod
    def query_of(x):
        return x.args[2][0] if x.op == 'agg' and len(x.args[2]) == 1 else x


def methods(F):
    for cls in ('Collection', 'TransactionalCollection'):
        for b in impl_methods(F, 'CollectionT', cls):
            yield cls, b
