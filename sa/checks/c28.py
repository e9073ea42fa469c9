"""C28: reported counts come from what was done."""
from writes import *
from glue import *
import checks.c27 as c27

X = lambda n: T('par', n)


def jobs(tier):
    out = []
    for kind in ('update', 'delete'):
        for many in (0, 1):
            out.append((kind, 'all', many, 3, 'none', 1, (), True, False))
            out.append((kind, 'a', many, 2, 'none', 2, (), True, False))
            out.append((kind, 'id', many, 1, 'ab', 2, (), True, False))
            out.append((kind, 'a', many, 2, 'a', 1, (), True, False))
            out.append((kind, 'or', many, 2, 'b', 1, (), False, False))
            out.append((kind, 'gt', many, 2, 'b', 1, (), True, False))
            out.append((kind, 'in', many, 1, 'none', 1, (), True, False))
            out.append((kind, 'all', many, 2, 'ab', 0 if kind == 'delete' else 3, ('b',), False, False))
    for w in ('none', 'a', 'ab'):
        out.append(('delete_all', '', 1, 3, w, 0, (), True, False))
    if tier == 'thorough':
        out += [(kind, qn, many, 3 if qn in ('all', 'a', 'gt') else 2, w, 2, (), e, False) for kind in ('update', 'delete') for many in (0, 1)
                for qn in ('all', 'a', 'id', 'id+a', 'gt', 'or', 'in') for w in ('none', 'b') for e in (False, True)]
    return out


def docs(n, given):
    return [doc(*([('_id', X('id%d' % i))] if given == i else []), ('a', X('a%d' % i))) for i in range(n)]


def other_cases(F):
    out = []
    for cls, b in methods(F):
        if b.name == 'insert_many':
            out += [(cls, b.name, n, g) for n in (0, 1, 2, 3) for g in ((None,) if n == 0 else (None, n - 1))]
        elif b.name == 'insert_one':
            out += [(cls, b.name, 1, None), (cls, b.name, 1, 0)]
        elif b.name == 'count_documents':
            out += [(cls, b.name, n, None) for n in (1, 2, 3)]
    return out


def payload(m, v):
    if v.op == 'agg' and v.args[0] == RESULT and v.args[1] == 0:
        return v.args[2][0]
    return v


def plain_int(t):
    t = uncast(t)
    return t.args[1] if t.op == 'c' and t.args[0] == 'i' else None


def id_map(t):
    """{index: id} of a map term."""
    out = []
    while t.op == 'agg' and len(t.args[2]) == 1:
        t = t.args[2][0]
    while t.op == 'docins':
        out.append((plain_int(t.args[1]), strip(t.args[2])))
        t = t.args[0]
    if t.op != 'docempty' or any(k is None for k, _ in out) or len({k for k, _ in out}) != len(out):
        return None
    return dict(out)


def stored_ids(puts):
    out = []
    for op, k, v in puts:
        if op == PUT and kind_of(k) == 'doc':
            while v is not None and v.op == 'pure' and v.args[0] in ('bytes', 'derefp'):
                v = v.args[1]
            d = doc_map(v) if v is not None else None
            out.append(strip(d['_id']) if d and '_id' in d else None)
    return out


def other_case(F, j):
    cls, name, n, g = j
    b = next(x for c, x in methods(F) if c == cls and x.name == name)
    bad = []
    if name == 'count_documents':
        m = Method(F, b, n_rows=n)
        seen = set()
        for s, v, comp, runs, rows, puts, flags in m.oks:
            k = plain_int(payload(m, v))
            if k != rows:
                bad.append(('count', 'the machine delivered %d documents and the count is %s' % (rows, show(v)[:100]), m.I.trace(s)))
            if not runs and rows == 0 and 'catalog record' in flags:
                bad.append(('count', 'the collection exists and its documents are not counted', m.I.trace(s)))
            if 'looked' not in flags:
                bad.append(('count', 'reports a count without having looked for the collection', m.I.trace(s)))
            if comp and [x[0] for x in comp] != ['compile_query_all']:
                bad.append(('count', 'counts the result of a program of %s' % comp[0][0], m.I.trace(s)))
            if not runs and k == 0 and rows == 0 and 'looked' in flags:
                pass
            seen.add(rows)
        if seen != set(range(n + 1)):
            bad.append(('count', 'never reports a count of %s' % sorted(set(range(n + 1)) - seen), ()))
    else:
        ds = docs(n, g)
        m = Method(F, b, n_rows=3, docs=arr_of(*ds) if name == 'insert_many' else ds[0])
        for s, v, comp, runs, rows, puts, flags in m.oks:
            ids = stored_ids(puts)
            fs = result_fields(F, v)
            if fs is None or None in ids:
                bad.append(('unknown', 'its result or what it stores is not known: %s' % show(v)[:100], m.I.trace(s)))
                continue
            if len(ids) != n:
                bad.append(('stored', '%d documents were given and %d are stored' % (n, len(ids)), m.I.trace(s)))
            if name == 'insert_one':
                got = fs.get('inserted_id')
                if ids and (got is None or strip(got) is not ids[-1]):
                    bad.append(('ids', 'inserted_id is %s where the stored document has %s' % (show(got)[:80] if got else '?', show(ids[-1])[:80]), m.I.trace(s)))
            else:
                mp = id_map(fs.get('inserted_ids', UNIT))
                if mp != dict(enumerate(ids)):
                    bad.append(('ids', 'inserted_ids is %s where the stored documents are %s' % (
                        {k: show(x)[:30] for k, x in mp.items()} if mp is not None else show(fs.get('inserted_ids', UNIT))[:150],
                        {k: show(x)[:30] for k, x in enumerate(ids)}), m.I.trace(s)))
    return {'bad': [(k, d, [t] if isinstance(t, str) else list(map(str, t))[-10:]) for k, d, t in bad], 'paths': len(m.oks)}


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('(1) The programs compiled for updates, deletes and delete-all are executed abstractly on candidates of unknown content; on each '
             'path the counters the machine ends with equal the numbers of documents matched / deleted and written back. (2) Every update and '
             'delete method of both collection kinds, with the machine replaced by unknown counters, reports those counters (zero if nothing '
             'ran). (3) count_documents reports the number of documents the machine delivered (0 to 3), and insert_one / insert_many on 0 to 3 '
             'documents store each and report the position and _id of each document stored, on every successful path.')
    js = jobs(ctx.tier)
    tot = run_jobs(ctx, 'C28', js)
    ctx.count('write_programs', len(js))
    ctx.count('paths', tot['paths'])
    ctx.count('candidates_judged', tot['judged'])
    ctx.count('documents_touched', tot['done'])
    c27.run_cases(ctx, 'C28', c27.cases(F, ctx.tier))
    oc = other_cases(F)
    for j, r in zip(oc, parallel(F, other_case, oc)):
        for k, d, tr in r['bad']:
            ctx.viol('%s:%s::%s' % (k, j[0], j[1]), '%s::%s (%d documents): %s' % (j[0], j[1], j[2], d), tr)
        ctx.count('insert_and_count_cases')
        ctx.count('insert_and_count_paths', r['paths'])
        if not r['paths']:
            ctx.viol('never:%s::%s' % (j[0], j[1]), '%s::%s succeeds on no path' % (j[0], j[1]))
    ctx.floor('write_programs', 20)
    ctx.floor('candidates_judged', 100)
    ctx.floor('method_cases', 16)
    ctx.floor('insert_and_count_cases', 12)
