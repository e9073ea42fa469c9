"""C10: the entries of every index follow every document change."""
from writes import *
from world import *

X = lambda n: T('par', n)


def jobs(tier):
    out = []
    for kind in ('update', 'delete'):
        for many in (0, 1):
            out.append((kind, 'id', many, 1, 'ab', 2, (), True, False))
            out.append((kind, 'a', many, 2, 'a', 2, (), False, False))
            out.append((kind, 'a', many, 2, 'b', 2, (), True, False))
        out.append((kind, 'all', 1, 2, 'ab', 1, (), False, False))
        out.append((kind, 'a', 1, 2, 'ab', 1, (), False, False))
        out.append((kind, 'all', 1, 2, 'ab', 1, ('b',), False, False))
        out.append((kind, 'gt', 1, 2, 'b', 2, (), False, False))
        out.append((kind, 'or', 1, 1, 'ab', 1, (), False, False))
        out.append((kind, 'in', 1, 1, 'ab', 1, (), False, False))
        out.append((kind, 'id', 1, 1, 'ab', 3, (), True, True))
        out.append((kind, 'all', 1, 2, 'b', 1, (), True, True))
    for w in ('none', 'a', 'ab'):
        out.append(('delete_all', '', 1, 2, w, 0, (), False, False))
    out.append(('delete_all', '', 1, 2, 'ab', 0, ('b',), True, True))
    if tier == 'thorough':
        out += [(kind, qn, many, 2, w, 2, m, False, u) for kind in ('update', 'delete') for qn in ('id+a', 'a', 'or', 'in', 'gt')
                for many in (0, 1) for w in ('a', 'b', 'ab') for m in ((), ('b',)) for u in (False, True)]
    return out


def document_variant(F):
    adt = next(a for a in F.adts if a.endswith('bson::Bson') or a == 'bson::Bson')
    return [v[0] for v in F.adts[adt]['v']].index('Document')




def need_entries(I, s, m, indexes):
    """(certain, possible) index entries of a stored document."""
    need, may = set(), set()
    for n, f in indexes:
        v = m.get(f)
        if v is None:
            continue
        w = doc_valued(I, s, v)
        t = (n, strip(v), strip(m['_id']))
        if w is True:
            may.add(t)
        else:
            need.add(t)
    return need, may


def doc_valued(I, s, v):
    v = strip(v)
    if v.op == 'agg':
        return v.args[1] == DOCV
    for k, x in s.facts.items():
        if k.op == 'disc' and k.args[0] is v:
            return x == ('=', DOCV)
    return None


def stored(e):
    v = e[2]
    while v is not None and v.op == 'pure' and v.args[0] in ('bytes', 'derefp'):
        v = v.args[1]
    return doc_map(v) if v is not None and (v.op == 'agg' or doc_items(v) is not None) else None


def insert_worlds():
    one = lambda n, *f: doc(*([('_id', X('id%d' % n))] if 'id' in f else []), *((x, X('%s%d' % (x, n))) for x in f if x != 'id'))
    for iname, idx in (('none', ()), ('a', (('ia', 'a'),)), ('ab', (('ia', 'a'), ('ib', 'b')))):
        for u in (False, True) if idx else (False,):
            yield iname, idx, u, (one(0, 'a', 'b'), one(1, 'id', 'a'))
            yield iname, idx, u, (one(0, 'id', 'b'),)


def insert_job(F, j):
    global DOCV
    DOCV = document_variant(F)
    cls, name, k = j
    iname, idx, u, docs = list(insert_worlds())[k]
    b = next(x for c, x in methods(F) if c == cls and x.name == name)
    out, paths, ents, puts = [], 0, 0, 0
    m = Method(F, b, n_rows=2, docs=arr_of(*docs) if name == 'insert_many' else docs[0], indexes=idx, unique=u)
    for s, v, comp, runs, rows, w, flags in m.oks:
        paths += 1
        have, need, may, ids = set(), set(), set(), []
        nocat = any(kind_of(e[1]) == 'catalog' for e in w)
        for op, kk, val in w:
            kd = kind_of(kk)
            if kd == 'doc':
                d = stored((op, kk, val))
                if d is None or '_id' not in d:
                    out.append(('unknown', 'the stored document is not known: %s' % show(val)[:150], m.I.trace(s)))
                    continue
                puts += 1
                ids.append(strip(d['_id']))
                if not nocat:
                    n1, m1 = need_entries(m.I, s, d, idx)
                    need |= n1
                    may |= m1
            elif kd == 'index':
                en = entry(kk, idx)
                xs = [strip(x) for x in elems(kk)]
                if en is None:
                    out.append(('foreign', 'an index entry of no index of the collection is written: %s' % show(kk)[:150], m.I.trace(s)))
                    continue
                (have.add if op == PUT else have.discard)((en[0], next((x for x in xs[:-1] if any(x is strip(mm) for d in map(stored, w) if d and strip(d['_id']) is xs[-1] for mm in [d.get(en[1])] if mm is not None)), None), xs[-1]))
                ents += 1
        if have - need - may:
            out.append(('extra', 'an index entry is written that belongs to no document stored: %s' % sorted((x[0], show(x[1]) if x[1] else '?', show(x[2])) for x in have - need - may), m.I.trace(s)))
        if need - have:
            out.append(('absent', 'the document is stored and the entry of index %s for it is not' % sorted({x[0] for x in need - have}), m.I.trace(s)))
    return {'bad': [(a, b_, list(map(str, t))[-8:] if not isinstance(t, str) else [t[-500:]]) for a, b_, t in out], 'paths': paths, 'entries': ents, 'puts': puts}


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('(1) The programs compiled for updates, deletes and delete-all, for every layout of plan and indexes, are executed abstractly on '
             'candidates with unknown values (every operator changing or not changing the document); after each path the set of index entries, '
             'starting from the entries of the candidates, equals the entries of the documents as they are then stored. (2) insert_one and '
             'insert_many of both collection kinds are executed abstractly on known documents with unknown values and 0 to 2 (unique) indexes; '
             'on each successful path the index entries written are exactly those of the documents written.')
    js = jobs(ctx.tier)
    tot = run_jobs(ctx, 'C10', js)
    ctx.count('write_programs', len(js))
    ctx.count('paths', tot['paths'])
    ctx.count('documents_judged', tot['stored'])
    ctx.count('index_entry_writes', tot['entries'])
    ij = [(c, b.name, k) for c, b in methods(F) if b.name in ('insert_one', 'insert_many') for k in range(len(list(insert_worlds())))
          if b.name == 'insert_many' or len(list(insert_worlds())[k][3]) == 1]
    for j, r in zip(ij, parallel(F, insert_job, ij)):
        iname, idx, u, docs = list(insert_worlds())[j[2]]
        for k, d, tr in r['bad']:
            ctx.viol('insert:%s:%s:%s:%s' % (k, j[0], j[1], iname), '%s::%s of %d documents with %s indexes on %s: %s' % (j[0], j[1], len(docs), 'unique' if u else 'plain', iname, d), tr)
        ctx.count('insert_paths', r['paths'])
        ctx.count('insert_index_entries', r['entries'])
        ctx.count('documents_inserted', r['puts'])
        if not r['puts']:
            ctx.viol('insert:none:%s:%s' % (j[0], j[1]), '%s::%s stores nothing on any successful path' % (j[0], j[1]))
    ctx.floor('write_programs', 20)
    ctx.floor('index_entry_writes', 100)
    ctx.floor('documents_judged', 40)
    ctx.floor('insert_paths', 8)
    ctx.floor('insert_index_entries', 20)
