"""C13: no update operator can change a document's _id."""
from checks.c26 import *
from txnmon import *


class Mon(TxnMon):
    """rest: 1 once the update was refused."""

    def call2(self, I, st, fn, b, args, info):
        r = TxnMon.call2(self, I, st, fn, b, args, info)
        if r is not None and b is not None and b.id in self.progs and len(r) == 2 and 'update' in self.F.by_id[b.id].np:
            s = r[1][0]
            s.mon = (s.mon[0], 1)
            self.refusals = getattr(self, 'refusals', 0) + 1
        return r

    def on_event(self, I, st, rest, name, failed, info, args=()):
        if rest == 1 and name in (PUT, DELETE, COMMIT):
            self.violation('%s:writes' % info.body.np, '%s after the update was refused' % name, I, st)
        return rest


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('Every update operator is compiled by the source\'s own generator from update documents that name _id as the field to change '
             '(alone, before and after other fields, next to other operators, with operands of every kind) or as the new name of a rename: '
             'every path must end in an error. Every database operation that compiles an update returns an error without writing or committing when '
             'that fails.')
    i1 = bson('Int32', I_(1))
    ups = []
    for name, vs in operands().items():
        for v in vs + ([bson(k, T('par', 'w')) for k in ('String', 'Int64', 'Double')] if ctx.tier == 'thorough' else []):
            ups += [(name, ((name, bdoc(('_id', v))),)), (name, ((name, bdoc(('b', v), ('_id', v))),)), (name, ((name, bdoc(('_id', v), ('b', v))),)),
                    (name, (('$set', bdoc(('b', X))), (name, bdoc(('_id', v)))) if name != '$set' else ((name, bdoc(('_id', v))), ('$unset', bdoc(('b', X)))))]
    for a in (('b', bstr('_id')),), (('c', bstr('d')), ('b', bstr('_id'))), (('b', bstr('_id')), ('c', bstr('d'))), (('_id', bstr('_id')),):
        ups.append(('$rename', (('$rename', bdoc(*a)),)))
    names = set()
    for name, items in ups:
        I, mon, res = compile_update(F, doc(*items))
        ctx.absorb(I)
        names.add(name)
        ctx.count('updates_compiled')
        for k, x, s in res:
            ctx.count('paths')
            if k == 'ok':
                ctx.viol('accepted:%s' % name, 'the update %s is accepted although it names _id' % {n: show(v)[:80] for n, v in items}, I.trace(s))
        for w, tr in mon.panics:
            ctx.viol('panic:%s' % name, 'compiling %s can panic at %s' % ({n: show(v)[:80] for n, v in items}, w), tr)
        if not res and not mon.panics:
            ctx.viol('nothing:%s' % name, 'compiling %s has no outcome' % {n: show(v)[:80] for n, v in items})
    # every operator the generator can produce was among them
    made = set()
    ops, bad = operators(F)
    for n, v, op, s in ops:
        made.add(op.args[0])
    for a in operator_impls(F):
        if a not in made:
            ctx.viol('unknown:%s' % a, 'the update operator %s is not reachable by a documented name, so it was not examined' % a)
    # a refused update writes nothing
    cg = callgraph(F)
    prog = {b.id for b in F.core.bodies if b.np.endswith('compile_update')}
    for b in inherent(F, 'DatabaseInner') + [x for a in ('Collection', 'TransactionalCollection') for x in impl_methods(F, 'CollectionT', a)]:
        if 'UpdateResult' not in ty_s(b):
            continue
        mon = Mon(F)
        I, outs = run_entry(F, b, mon, 0)
        ctx.absorb(I)
        n = 0
        for s, r in outs:
            if s.mon[1] == 1:
                n += 1
                if result_kind(r, s, I) != 'err':
                    mon.violation('%s:success' % b.np, '%s can return success although the update was refused' % b.np, I, s)
        ctx.count('operations', 1 if n else 0)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
    ctx.floor('updates_compiled', 40)
    ctx.floor('operations', 4)
