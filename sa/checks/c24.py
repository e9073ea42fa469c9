"""C24: unknown or malformed queries, updates and pipelines are rejected. The source's own code generators (and, for updates, the
operators they produce) are interpreted abstractly on documents of every shape: each operator, implemented or not, with an operand
of every kind, in every position; what may be accepted is accepted, everything else fails with an error and nothing panics."""
from checks.c31 import *
from query import parallel, spec_of, compile_args, compile_program
import checks.c22 as c22

ANY = 'any kind'
OID = lambda n: bson('ObjectId', T('par', n))


def oper(F, k, name='w'):
    """An operand of a kind, unknown inside."""
    if k == 'Array':
        return barr(OID(name))
    if k == 'Document':
        return bdoc(('q', OID(name)))
    return c22.value(F, k, name)


def i32(k):
    return bson('Int32', I_(k))


def i64(k):
    return bson('Int64', I_(k))


# a case: (group, description, phase, document or stages, verdict) with phase query/update/pipeline and verdict 'ok', 'err' or None
def query_conditions(F, ks):
    """[(description, condition entry, verdict)]"""
    out = []
    def each(op, ok, free=()):
        for k in ks:
            out.append(('%s with a %s' % (op, k), ('a', bdoc((op, oper(F, k)))), 'ok' if ok == ANY or k in ok else None if k in free else 'err'))
    for op in ('$eq', '$ne', '$gt', '$gte', '$lt', '$lte'):
        each(op, ANY)
    for op in ('$in', '$nin', '$all'):
        each(op, ('Array',))
    each('$size', ('Int64',), ('Int32',))
    each('$regex', ('RegularExpression',), ('String',))
    each('$not', (), ('RegularExpression',))
    good = ('$gt', OID('v'))
    for op in ('$foo', '$', '$exists', '$elemMatch', '$EQ', '$gt ', '$text'):
        for k in ('Int32', 'Array', 'Document', 'Null', 'Boolean', 'String'):
            out.append(('%s with a %s' % (op, k), ('a', bdoc((op, oper(F, k)))), 'err'))
        out.append(('%s after another operator' % op, ('a', bdoc(good, (op, OID('w')))), 'err'))
        out.append(('%s before another operator' % op, ('a', bdoc((op, OID('w')), good)), 'err'))
        out.append(('%s inside $not' % op, ('a', bdoc(('$not', bdoc((op, OID('w')))))), 'err'))
        out.append(('%s beside another inside $not' % op, ('a', bdoc(('$not', bdoc(good, (op, OID('w')))))), 'err'))
    out.append(('$not of an operator', ('a', bdoc(('$not', bdoc(good)))), 'ok'))
    out.append(('$not of $in', ('a', bdoc(('$not', bdoc(('$in', barr(OID('v'))))))), 'ok'))
    out.append(('$not of a malformed $in', ('a', bdoc(('$not', bdoc(('$in', OID('v')))))), 'err'))
    out.append(('$not of a malformed $size', ('a', bdoc(('$not', bdoc(('$size', bstr('v')))))), 'err'))
    out.append(('a malformed $in after another operator', ('a', bdoc(good, ('$in', OID('v')))), 'err'))
    out.append(('no operator', ('a', bdoc()), 'err'))
    return out


def top_conditions(F, ks):
    out = []
    good = bdoc(('a', OID('v')))
    for op in ('$and', '$or'):
        for k in ks:
            out.append(('%s with a %s' % (op, k), (op, oper(F, k)), 'err'))
            out.append(('%s with an array of a %s' % (op, k), (op, barr(oper(F, k))), None if k == 'Document' else 'err'))
            out.append(('%s with an array of a condition and a %s' % (op, k), (op, barr(good, oper(F, k))), None if k == 'Document' else 'err'))
        out.append(('%s of conditions' % op, (op, barr(good, bdoc(('b', OID('w'))))), 'ok'))
        out.append(('%s of an unknown operator' % op, (op, barr(good, bdoc(('b', bdoc(('$foo', OID('w'))))))), 'err'))
        out.append(('%s of a malformed $in' % op, (op, barr(bdoc(('b', bdoc(('$in', OID('w'))))), good)), 'err'))
    for op in ('$foo', '$not', '$nor', '$', '$gt', '$set'):
        for k in ks:
            out.append(('%s at the top with a %s' % (op, k), (op, oper(F, k)), 'err'))
    return out


def cases(F, tier):
    ks = c22.kinds(F)
    out = []
    qs = query_conditions(F, ks)
    tops = top_conditions(F, ks)
    good_a, good_id = ('c', OID('gc')), ('_id', OID('gid'))
    for d, c, v in qs + tops:
        out.append(('query', d, ('compile_query', (c,), ()), v))
    contexts = [('beside a plain condition', lambda c: (good_a, c), ()), ('before a plain condition', lambda c: (c, good_a), ()), ('beside _id', lambda c: (good_id, c), ()),
                ('before _id', lambda c: (c, good_id), ()), ('with an index on its field', lambda c: (c,), (('ia', 'a'),)),
                ('beside an indexed field', lambda c: (good_a, c), (('ic', 'c'),)), ('in $and', lambda c: (('$and', barr(bdoc(c))),), ()),
                ('in $or', lambda c: (('$or', barr(bdoc(good_a), bdoc(c))),), ()), ('on _id', lambda c: (('_id', c[1]),) if c[0] == 'a' else (c,), ())]
    sel = [x for x in qs if any(w in x[0] for w in ('$foo with a Int32', '$foo after', '$foo inside', '$in with a Int32', '$in with a Array', '$size with a String', '$gt with a Int32', 'no operator', '$regex with a Int32', '$not with a Int32', '$not of a malformed $in'))]
    sel += [x for x in tops if any(w in x[0] for w in ('$foo at the top with a Int32', '$foo at the top with a Document', '$nor at the top with a Array', '$and with a Int32', '$or with a Document', '$or of an unknown', '$and with an array of a Int32', '$and of conditions'))]
    if tier == 'thorough':
        sel = qs + tops
    for d, c, v in sel:
        for w, f, ix in contexts:
            if c[0] != 'a' and w in ('on _id', 'with an index on its field'):
                continue
            if w == 'on _id' and d.startswith(('$size', '$all')):
                continue
            out.append(('query', '%s, %s' % (d, w), ('compile_query', f(c), ix), v))
        for pat in ('compile_delete', 'compile_update', 'compile_aggregate'):
            out.append(('query', '%s, in %s' % (d, pat[8:]), (pat, (c,), ()), v))
    # updates
    num = ('Int32', 'Int64', 'Double')
    for op in ('$set', '$unset', '$inc', '$mul', '$max', '$min', '$push', '$pop', '$rename'):
        for k in ks:
            if k != 'Document':
                out.append(('update', '%s with a %s' % (op, k), (((op, oper(F, k)),), 'missing'), 'err'))
            ok = num if op in ('$inc', '$mul') else ('String',) if op == '$rename' else () if op == '$pop' else ANY
            v = 'ok' if ok == ANY or k in ok else None if op == '$pop' and k in num else 'err'
            for target in ('missing', 'right'):
                out.append(('update', '%s of a field with a %s (%s)' % (op, k, target), (((op, bdoc(('b', oper(F, k)))),), target + op), v if not (v == 'ok' and op == '$rename') else None))
            if op in ('$inc', '$mul', '$push', '$pop'):
                good = i32(1)
                stored = num if op in ('$inc', '$mul') else ('Array',)
                if k not in stored and (op in ('$push', '$pop') or True):
                    out.append(('update', '%s on a stored %s' % (op, k), (((op, bdoc(('b', good))),), k), None if op in ('$pop', '$push') and k == 'Null' else 'err'))
    for n, v in ((1, 'ok'), (-1, 'ok'), (0, 'err'), (2, 'err'), (-2, 'err')):
        for w in (i32, i64):
            out.append(('update', '$pop by %d' % n, ((('$pop', bdoc(('b', w(n)))),), 'Array'), v))
    out.append(('update', '$rename to a name', ((('$rename', bdoc(('b', bstr('d')))),), 'right$rename'), 'ok'))
    goodu = ('$set', bdoc(('a', OID('w'))))
    for op in ('$foo', '$', 'foo', '$SET', '$setOnInsert', '$pull', '$addToSet', '$currentDate'):
        for k in ('Document', 'Int32', 'String', 'Null'):
            out.append(('update', '%s with a %s' % (op, k), (((op, oper(F, k)),), 'missing'), 'err'))
        out.append(('update', '%s after $set' % op, ((goodu, (op, bdoc(('b', OID('w'))))), 'missing'), 'err'))
        out.append(('update', '%s before $set' % op, (((op, bdoc(('b', OID('w')))), goodu), 'missing'), 'err'))
    # pipelines
    pre = {'first': (), 'second': (('$unset', bstr('x')),), 'after $match': (('$match', bdoc(('c', OID('c')))),), 'third': (('$skip', i32(1)), ('$limit', i32(1)))}
    def stage(d, entries, v, where=pre):
        for w in where:
            out.append(('pipeline', '%s, %s' % (d, w), [doc(x) for x in pre[w]] + [doc(*entries)], v))
    two = {'first': 0, 'after $match': 0} if tier == 'quick' else pre
    for k in ks:
        x = oper(F, k)
        stage('$match with a %s' % k, (('$match', x),), None if k == 'Document' else 'err', pre)
        for op, ok in (('$skip', num[:2]), ('$limit', num[:2]), ('$count', ('String',)), ('$unset', ('String',)), ('$addFields', ('Document',)), ('$group', ()), ('$sort', ())):
            free = op in ('$skip', '$limit') and k in num or op == '$sort' and k == 'Document'
            stage('%s with a %s' % (op, k), ((op, x),), None if free else 'ok' if k in ok else 'err', two)
        stage('$sort of a %s' % k, (('$sort', bdoc(('b', x))),), None if k in num else 'err', two)
        stage('$sort of a good key and a %s' % k, (('$sort', bdoc(('a', i32(1)), ('b', x))),), None if k in num else 'err', {'first': 0})
        stage('$unset of an array of a %s' % k, (('$unset', barr(x)),), 'ok' if k == 'String' else 'err', {'first': 0})
        stage('$unset of an array of a name and a %s' % k, (('$unset', barr(bstr('x'), x)),), 'ok' if k == 'String' else 'err', {'first': 0})
        stage('$group accumulator that is a %s' % k, (('$group', bdoc(('_id', bson('Null')), ('n', x))),), 'err', two)
        stage('$group of $abs of a %s' % k, (('$group', bdoc(('_id', bson('Null')), ('n', bdoc(('$abs', x))))),), None if k in num + ('String', 'Null') else 'err', {'first': 0})
        stage('$addFields of $abs of a %s' % k, (('$addFields', bdoc(('n', bdoc(('$abs', x))))),), None if k in num + ('String', 'Null') else 'err', {'first': 0})
        stage('$group of $sum of a %s' % k, (('$group', bdoc(('_id', bson('Null')), ('n', bdoc(('$sum', x))))),), 'sum', {'first': 0})
        stage('$group by a %s' % k, (('$group', bdoc(('_id', x), ('n', bdoc(('$sum', i32(1)))))),), 'by' if k in ('String', 'Document', 'Array') else None, {'first': 0})
        for op in ('$foo', '$project', '$', 'foo'):
            stage('%s with a %s' % (op, k), ((op, x),), 'err', two if op == '$foo' else {'second': 0})
    sum1 = bdoc(('$sum', i32(1)))
    for n in (i32, i64):
        for op in ('$skip', '$limit'):
            stage('%s 1' % op, ((op, n(1)),), 'ok')
            stage('%s -1' % op, ((op, n(-1)),), 'err')
        for v, r in ((1, 'ok'), (-1, 'ok'), (0, 'err'), (2, 'err')):
            stage('$sort %d' % v, (('$sort', bdoc(('b', n(v)))),), r)
    stage('$group', (('$group', bdoc(('_id', bson('Null')), ('n', sum1))),), 'ok')
    stage('$group without _id', (('$group', bdoc(('n', sum1))),), 'err')
    stage('$group with an unknown accumulator', (('$group', bdoc(('_id', bson('Null')), ('n', bdoc(('$foo', i32(1)))))),), 'err')
    stage('$group with an unknown accumulator after a known one', (('$group', bdoc(('_id', bson('Null')), ('m', sum1), ('n', bdoc(('$avg', i32(1)))))),), 'err')
    stage('$group with two accumulators for one field', (('$group', bdoc(('_id', bson('Null')), ('n', bdoc(('$sum', i32(1)), ('$abs', i32(1)))))),), 'err')
    stage('$addFields with an unknown operator', (('$addFields', bdoc(('n', bdoc(('$foo', i32(1)))))),), 'err')
    stage('$addFields with an unknown operator inside $abs', (('$addFields', bdoc(('n', bdoc(('$abs', bdoc(('$foo', i32(1)))))))),), 'err')
    stage('$addFields', (('$addFields', bdoc(('n', bstr('$a')), ('m', i32(1)), ('k', bdoc(('$abs', bstr('$a')))))),), 'ok')
    stage('an empty stage', (), 'err')
    stage('a stage of two operators', (('$skip', i32(1)), ('$limit', i32(1))), 'err')
    stage('a stage of $match and another', (('$match', bdoc(('a', OID('v')))), ('$limit', i32(1))), 'err')
    stage('a stage of $limit and an unknown one', (('$limit', i32(1)), ('$foo', i32(1))), 'err')
    return out


def targets(F, name):
    """The value of b in the documents an update is applied to."""
    if name == 'missing' or name.startswith('missing'):
        return [None]
    if name.startswith('right'):
        op = name[5:]
        return [i32(5)] if op in ('$inc', '$mul') else [barr(OID('e'))] if op in ('$push', '$pop') else [OID('cur')]
    return [oper(F, name, 'cur')]


def run_case(F, k):
    group, d, what, verdict = CASES[k]
    setup(F)
    panics, kinds = [], set()
    err = tr = None
    steps = 0
    if group == 'query':
        pat, entries, ix = what
        b = one(F, r'.*SubProgram::%s' % pat)
        qd = doc(*entries)
        upd = doc(('$set', bdoc(('zz', OID('u'))))) if pat == 'compile_update' else None
        pipe = [doc(('$match', bson('Document', qd)))] if pat == 'compile_aggregate' else None
        args = compile_args(F, b, spec_of(F, ix), qd, 1, upd, pipe)
    elif group == 'update':
        b = one(F, r'.*SubProgram::compile_update')
        args = compile_args(F, b, spec_of(F, ()), doc(), 1, doc(*what[0]))
    else:
        b = one(F, r'.*SubProgram::compile_aggregate')
        args = compile_args(F, b, spec_of(F, ()), None, 1, None, what)
    if group == 'update':
        I, mon, res = compile_update(F, doc(*what[0]))
        panics += [p[0] for p in mon.panics]
        steps += I.steps
        for r, ops, s in res:
            if r != 'ok':
                kinds.add('err')
                continue
            got = None
            for t in targets(F, what[1]):
                items = [('_id', ID), ('a', T('par', 'A0'))] + ([('b', t)] if t is not None else [])
                works = {('ok', bson('Document', doc(*items)))}
                cur = [(bson('Document', doc(*items)), s)]
                ends = set()
                if not ops:
                    ends.add('nothing')
                for op in ops:
                    nxt = []
                    for v, s1 in cur:
                        I2, m2, out = apply(F, op, v, s1)
                        steps += I2.steps
                        panics += [p[0] for p in m2.panics]
                        for k2, u, new, h, s2 in out:
                            if k2 == 'ok':
                                nxt.append((new if new.op == 'agg' else bson('Document', new), s2))
                            else:
                                ends.add('err')
                    cur = nxt
                if cur:
                    ends.add('ok')
                kinds |= ends
    else:
        I, mon, outs = run_emit(F, b, args, [])
        steps += I.steps
        panics += [p[0] for p in mon.panics]
        for s, r in outs:
            kinds.add(result_kind(r, s, I))
            tr = I.trace(s)
    return kinds, panics, steps, tr


CASES = ()


def check(ctx):
    global CASES
    F = ctx.F
    setup(F)
    CASES = cases(F, ctx.tier)
    ctx.rule('Query, update and pipeline documents of every shape - each operator, implemented or not, with an operand of every one of the value kinds (unknown inside), alone, beside and before other conditions, nested '
             'in $and, $or and $not, on _id and on indexed fields, in find, update, delete and $match, and in every position of a pipeline - are compiled abstractly by the source\'s generators; updates are also applied to documents '
             'with the field missing and with stored values of every kind. A document that names an unknown operator or gives one an operand it does not take must fail on every path; the documented operators must be accepted; no path may panic.')
    for (group, d, what, verdict), (kinds, panics, steps, tr) in zip(CASES, parallel(F, run_case, list(range(len(CASES))))):
        ctx.count('documents_%s' % group)
        ctx.count('blocks_interpreted', steps)
        for p in panics[:1]:
            ctx.viol('panic:%s:%s' % (group, d), '%s: %s can panic at %s' % (group, d, p), tr or ())
        if not kinds and not panics:
            ctx.viol('none:%s:%s' % (group, d), '%s: %s: no outcome was found' % (group, d))
        if verdict in ('sum', 'by'):
            if 'ok' in kinds:
                ctx.viol('ignored:%s' % ('$sum' if verdict == 'sum' else '$group-_id'), 'pipeline: %s is accepted, and ignored' % d)
            continue
        if verdict == 'err' and kinds - {'err'}:
            ctx.viol('accepted:%s:%s' % (group, d), '%s: %s is accepted' % (group, d), tr or ())
        if verdict == 'ok' and 'ok' not in kinds:
            ctx.viol('refused:%s:%s' % (group, d), '%s: %s is refused' % (group, d), tr or ())
        ctx.count('verdict_%s' % (verdict or 'free'))
    ctx.floor('documents_query', 500)
    ctx.floor('documents_update', 300)
    ctx.floor('documents_pipeline', 500)
    ctx.sample('; '.join(c[1] for c in CASES[::211]))
