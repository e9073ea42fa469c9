"""C14: every stored document has an _id and is stored, indexed and reported under it."""
from keys import *
from checks.c09 import contains
from models import doc_get_val, base_doc, mk_pure

ID = T('c', 's', '_id')


def id_of(D):
    """The value of a document's _id."""
    v = doc_get_val(D, ID)
    if v is False:
        return None
    if v is not None:
        return strip(v)
    return strip(mk_pure('getp', base_doc(D, ID), ID))


def docs_in(t):
    """Documents out of which a value was read."""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'pure' and x.args[0] == 'getp':
                out.append(x.args[1])
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def deref_all(t):
    return strip(t)


class Mon(KeyMon):
    """rest: {('id', pk)}: the _id of the document stored last."""
    what = ''
    puts = entries = reports = 0
    many = False

    def __init__(self, F):
        KeyMon.__init__(self, F)
        self.bson = [k for k in F.adts if k.endswith('bson::Bson') and k.startswith('bson')][0]
        self.null = [v[0] for v in F.adts[self.bson]['v']].index('Null')
        self.result_adt = adt_named(F, 'InsertOneResult')

    def shape(self, v):
        if v.op == 'docins':
            return ('docins', v.args[1])
        return KeyMon.shape(self, v)

    def present(self, I, st, D):
        """D surely has an _id that is not null: None, or what is missing."""
        v = doc_get_val(D, ID)
        if v is False:
            return 'which has no _id'
        if v is not None:
            v = strip(I.deepval(st, v))
            if v.op == 'agg' and v.args[0] == self.bson:
                if v.args[1] == self.null:
                    return 'whose _id is null'
                if not self.fresh(v):
                    return 'whose _id was set to a value that is neither its own nor a newly generated one'
                return None
            if I.known(st, mk_disc(v)) not in (None, self.null):
                return None
            if self.not_null(I, st, v):
                return None
            return 'whose _id may be null'
        d0 = base_doc(D, ID)
        if I.known(st, mk_pure('has', d0, ID)) != 1:
            return 'which may have no _id'
        if not self.not_null(I, st, mk_pure('getp', d0, ID)):
            return 'whose _id may be null'
        return None

    def fresh(self, v):
        """Contains the result of a generator: a call without arguments."""
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Term):
                if x.op == 'call' and len(x.args) == 3:
                    return True
                todo.extend(x.args)
            elif isinstance(x, tuple):
                todo.extend(x)
        return False

    def not_null(self, I, st, p):
        for x in (p, mk_deref(p)):
            k = mk_disc(x)
            v = I.known(st, k)
            if v is not None and v != self.null:
                return True
            s = st.copy()
            if not I.assume(s, k, self.null):
                return True
        return False

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        if name != PUT:
            return rest
        kd = kind_of(k)
        if kd == 'doc':
            self.puts += 1
            if self.many and any(x[0] == 'id' for x in rest):
                self.violation('%s:unreported' % self.what, '%s stores another document although the _id of the last one was not put into its result (%s)'
                               % (self.what, info.where()), I, st)
            if not (val.op == 'pure' and val.args[0] == 'bytes'):
                self.violation('%s:not-a-document' % self.what, '%s stores something that is not a serialised document under a document key (%s): %s'
                               % (self.what, info.where(), show(val)[:200]), I, st)
                return rest
            D = val.args[1]
            pk = strip(elems(k)[-1])
            if pk is not id_of(D):
                self.violation('%s:key' % self.what, '%s stores a document under a key whose last part is not the _id of that document (%s): key %s, document %s'
                               % (self.what, info.where(), show(pk)[:150], show(D)[:150]), I, st)
            why = self.present(I, st, D)
            if why:
                self.violation('%s:no-id' % self.what, '%s stores a document %s (%s)' % (self.what, why, info.where()), I, st)
            return frozenset(x for x in rest if x[0] != 'id') | {('id', pk)}
        if kd == 'index':
            self.entries += 1
            e = [strip(x) for x in elems(k)]
            ids = {id_of(D) for D in docs_in(e[-2])}
            if e[-1] not in ids:
                self.violation('%s:index-target' % self.what, '%s adds an index entry that does not end with the _id of the document it was computed from (%s): %s'
                               % (self.what, info.where(), show(e[-1])[:200]), I, st)
        return rest

    def call2(self, I, st, fn, b, args, info):
        if fn.get('n') == 'insert' and 'HashMap' in fn['p'] and len(args) == 3 and self.in_core(info):
            ty = info.body.crate.types[info.argtys[2]]
            if ty.get('adt') == self.bson:
                self.reports += 1
                v = strip(I.deepval(st, args[2]))
                ids = {x[1] for x in st.mon[1] if x[0] == 'id'}
                if v not in ids:
                    self.violation('%s:reported' % self.what, '%s reports an inserted id that is not the _id of the document just stored (%s): %s'
                                   % (self.what, info.where(), show(v)[:200]), I, st)
                else:
                    st.mon = (st.mon[0], frozenset(x for x in st.mon[1] if x[0] != 'id'))
        return KeyMon.call2(self, I, st, fn, b, args, info)

    def in_core(self, info):
        return info.body.np.split('::')[0] not in ('std', 'core', 'alloc')


def check(ctx):
    F = ctx.F
    ctx.rule('Documents and composite keys are tracked as terms. Whenever a document is stored under a composed key, the last key '
             'component must be the value of that same document\'s _id, which the path must have shown to be present and not null or '
             'have set to a generated value; an index entry must end with the _id of the document its value was read from; the inserted '
             'ids an operation returns must be those.')
    writers = callgraph(F).callers((PUT,))
    entries = [b for a in ('Collection', 'TransactionalCollection') for b in impl_methods(F, 'CollectionT', a)
               if b.id in writers and 'Insert' in ty_s(b)]
    entries += [b for b in inherent(F, 'DatabaseInner') if b.id in writers
                and any('TransactionInner' in ty_s(b, i) for i in range(1, b.argc + 1)) and b.pub]
    for b in entries:
        mon = Mon(F)
        mon.what = b.np
        mon.many = 'InsertManyResult' in ty_s(b)
        I, outs = run_entry(F, b, mon, frozenset())
        ctx.absorb(I)
        ctx.count('operations')
        for s, r in outs:
            if result_kind(r, s, I) != 'ok':
                continue
            ctx.count('exit_obligations')
            if mon.many and any(x[0] == 'id' for x in s.mon[1]):
                mon.violation('%s:unreported' % b.np, '%s can return success without having put the _id of the last document into its result' % b.np, I, s)
            v = I.deepval(s, r)
            v = v.args[2][0] if v.op == 'agg' and v.args[0] == RESULT else None
            if 'InsertOneResult' not in ty_s(b):
                continue
            ctx.count('single_insert_results')
            ids = {x[1] for x in s.mon[1] if x[0] == 'id'}
            if v is None or v.op != 'agg' or v.args[0] != mon.result_adt or strip(v.args[2][0]) not in ids:
                mon.violation('%s:reported' % b.np, '%s returns an inserted id that is not the _id of the document stored: %s'
                              % (b.np, show(v)[:200] if v is not None else '?'), I, s)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
        ctx.count('document_stores', mon.puts)
        ctx.count('index_entries', mon.entries)
        ctx.count('reported_ids', mon.reports)
        ctx.sample('%s: %d document stores, %d index entries, %d ids put into a result map' % (b.np, mon.puts, mon.entries, mon.reports), 40)
        if mon.many:
            ctx.count('multi_insert_results')
            if not mon.reports:
                ctx.viol('%s:no-report' % b.np, '%s never puts an inserted id into its result' % b.np)
    for op, eff in arm_effects(F).items():
        if PUT not in eff:
            continue
        mon = Mon(F)
        mon.what = 'instruction ' + op
        I, ends = run_arm(F, op, mon)
        ctx.absorb(I)
        ctx.count('instructions')
        ctx.count('index_entries', mon.entries)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
    ctx.floor('instructions', 1)
    ctx.floor('operations', 8)
    ctx.floor('document_stores', 4)
    ctx.floor('index_entries', 4)
    ctx.floor('single_insert_results', 2)
    ctx.floor('multi_insert_results', 2)
