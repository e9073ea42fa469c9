"""C26: an update writes its result back exactly when something changed."""
from writes import *
from updops import compile_update, apply, operator_impls

ID, X, B = T('par', 'id'), T('par', 'X'), T('par', 'B')


def jobs(tier):
    out = []
    for n in (0, 1, 2, 3):
        for many in (0, 1):
            out.append(('update', 'a', many, 2 if n < 3 else 1, 'none', n, (), False, False))
        out.append(('update', 'id', 1, 1, 'b', n, (), True, False))
    out.append(('update', 'all', 1, 2, 'a', 3, (), False, False))
    out.append(('update', 'gt', 1, 2, 'none', 2, (), True, False))
    if tier == 'thorough':
        out += [('update', qn, many, 2, w, 2, (), e, False) for qn in ('id+a', 'or', 'in', 'gt') for many in (0, 1) for w in ('none', 'a') for e in (False, True)]
        out.append(('update', 'a', 1, 3, 'none', 3, (), False, False))
    return out


def operands():
    return {
    '$set': [X], '$unset': [X], '$max': [X], '$min': [X], '$push': [X],
    '$inc': [X, bson('Int32', T('par', 'i'))], '$mul': [X, bson('Int64', T('par', 'l'))],
    '$rename': [bstr('d')], '$pop': [bson('Int32', I_(1)), bson('Int64', I_(-1))],
    }


def targets():
    out = {'missing': doc(('_id', ID), ('a', T('par', 'A0'))), 'any value': doc(('_id', ID), ('a', T('par', 'A0')), ('b', B))}
    for k in ('Int32', 'Int64', 'Double', 'String'):
        out[k] = doc(('_id', ID), ('b', bson(k, T('par', 'cur'))), ('a', T('par', 'A0')))
    for n in (0, 1, 2):
        out['array of %d' % n] = doc(('_id', ID), ('b', barr(*[T('par', 'e%d' % i) for i in range(n)])))
    out['null'] = doc(('_id', ID), ('b', bson('Null')))
    return out


def same_doc(x, y):
    a, b = doc_map(x), doc_map(y)
    return a is not None and a == b


def operators(F):
    """[(name, operand, compiled operator value, state)] for every operator the generator knows, by its documented name."""
    out, bad = [], []
    for name, vs in operands().items():
        for v in vs:
            I, mon, res = compile_update(F, doc((name, bdoc(('b', v)))))
            ok = [(s, x) for k, x, s in res if k == 'ok']
            if not ok:
                bad.append((name, v))
            for s, x in ok:
                if len(x) != 1:
                    raise Missing('the operator the update {%s: ...} compiles to (found %d)' % (name, len(x)))
                out.append((name, v, x[0], s))
    return out, bad


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('(1) The program compiled for an update with 0 to 3 operators is executed abstractly, every operator either changing the document '
             'or reporting no change, on candidates of unknown content: on each path the document is stored exactly once, with what the '
             'operators left, if some operator reported a change, and not at all otherwise; every operator is applied once, to what the one '
             'before it left; the modified counter equals the number of documents stored. (2) Every operator is applied abstractly to '
             'documents with the field missing, of any type, of each numeric type, an array, null: if the document differs afterwards the '
             'operator says so; $max and $min say so only then.')
    tot = run_jobs(ctx, 'C26', jobs(ctx.tier))
    ctx.count('update_programs', len(jobs(ctx.tier)))
    ctx.count('paths', tot['paths'])
    ctx.count('candidates_judged', tot['judged'])
    ctx.count('documents_written_back', tot['done'])
    ctx.count('documents_left_alone', tot['idle'])
    ops, bad = operators(F)
    for n, v in bad:
        ctx.viol('compile:%s' % n, 'the operator %s with operand %s is not accepted' % (n, show(v)))
    impls = set()
    for name, v, op, s in ops:
        impls.add(op.args[0])
        for tn, t in targets().items():
            old = bson('Document', t)
            I, mon, res = apply(F, op, old, s)
            ctx.absorb(I)
            for k, u, new, h, s2 in res:
                if k != 'ok':
                    continue
                ctx.count('operator_paths')
                if u is None or u.op != 'c':
                    ctx.viol('report:%s' % name, '%s on a document with b %s: what it reports is not known: %s' % (name, tn, show(u)), I.trace(s2))
                    continue
                same = same_doc(old, new)
                if not same and not u.args[1]:
                    ctx.viol('silent:%s' % name, '%s changes the document (b: %s) and reports no change' % (name, tn), I.trace(s2))
                if same and u.args[1] and name in ('$max', '$min'):
                    ctx.viol('false:%s' % name, '%s leaves the document (b: %s) as it was and reports a change' % (name, tn), I.trace(s2))
    from checks.c31 import pair_results
    for name, what, _, changed, u, tr in pair_results(ctx, F):
        ctx.count('two_field_paths')
        if changed and not (u is not None and u.op == 'c' and u.args[1]):
            ctx.viol('silent:%s:two-fields' % name, '%s naming two fields (%s) changes the document and reports no change' % (name, what), tr)
    ctx.floor('two_field_paths', 80)
    for a, b in operator_impls(F).items():
        if a not in impls:
            ctx.viol('unknown:%s' % a, 'the update operator %s is not reachable by a documented name, so it was not examined' % a)
    ctx.count('operators', len(impls))
    ctx.floor('operators', 9)
    ctx.floor('operator_paths', 60)
    ctx.floor('documents_written_back', 50)
    ctx.floor('documents_left_alone', 20)
