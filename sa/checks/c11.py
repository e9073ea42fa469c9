"""C11: creating and dropping indexes and collections leaves nothing missing or behind."""
from writes import *
from world import *

X = lambda n: T('par', n)
ONE = lambda: bson('Int32', I_(1))


class DdlMon(WorldMon):
    """Also records what the programs compiled were compiled for."""

    def __init__(self, *a, **k):
        WorldMon.__init__(self, *a, **k)
        self.catalog = True
        self.compiled_for = []

    def call2(self, I, st, fn, b, args, info):
        if b is not None and b.id in self.progs:
            vs = [I.deepval(st, a) for a in args]
            self.compiled_for.append((b.name, [v.args[1] for v in map(const_or, vs) if v is not None], [v for v in vs if v.op == 'agg' and v is self.spec or v is self.spec]))
        return WorldMon.call2(self, I, st, fn, b, args, info)


def const_or(v):
    while v.op == 'ref':
        v = v.args[0] if isinstance(v.args[0], Term) else v
        break
    return v if v.op == 'c' and v.args[0] == 's' else None


def documents(shape):
    """shape: a tuple of field tuples, one per document."""
    return [doc(('_id', X('id%d' % i)), *((f, X('%s%d' % (f, i))) for f in fs)) for i, fs in enumerate(shape)]


SHAPES = {'no documents': (), 'one document': (('a', 'b'),), 'one document without b': (('a',),), 'two documents': (('a', 'b'), ('a', 'b')),
          'three documents, one without b': (('b',), ('a',), ('a', 'b'))}


def worlds():
    """[(operation, shape name, existing indexes, catalog present, (options name, unique), index field, case)]"""
    out = []
    for sh in SHAPES:
        out.append(('create_index', sh, (), True, (None, None), 'b', 'new'))
        out.append(('create_index', sh, (('ia', 'a'),), True, (None, None), 'b', 'new'))
        out.append(('create_index', sh, (('ib', 'b'),), True, ('named', None), 'b', 'new'))
        out.append(('drop_index', sh, (('ib', 'b'),), True, None, 'ib', 'there'))
        out.append(('drop_index', sh, (('ic', 'b'), ('ib', 'b')), True, None, 'ib', 'there'))
        out.append(('drop_index', sh, (('ia', 'a'), ('ib', 'b')), True, None, 'ib', 'there'))
        for ix in ((), (('ib', 'b'),), (('ia', 'a'), ('ib', 'b'))):
            out.append(('drop', sh, ix, True, None, None, 'there'))
    out.append(('create_index', 'two documents', (), True, ('named', None), 'b', 'new'))
    out.append(('create_index', 'one document', (), True, (None, 1), 'b', 'new'))
    out.append(('create_index', 'two documents', (('ia', 'a'),), True, ('named', 0), 'b', 'new'))
    out.append(('create_index', 'two documents', (), True, ('named', 1), 'b', 'new'))
    out.append(('create_index', 'no documents', (), False, (None, None), 'b', 'new'))
    out.append(('create_index', 'no documents', (), False, ('named', 1), 'b', 'new'))
    out.append(('create_index', 'two documents', (('b_1', 'b'),), True, (None, None), 'b', 'same'))
    out.append(('create_index', 'two documents', (('named', 'a'),), True, ('named', None), 'b', 'conflict'))
    out.append(('drop_index', 'two documents', (('ia', 'a'),), True, None, 'ib', 'absent'))
    out.append(('drop_index', 'no documents', (), False, None, 'ib', 'absent'))
    out.append(('drop', 'no documents', (), False, None, None, 'absent'))
    return out


def cases(F):
    return [(c, b.name, k) for c, b in methods(F) for k, w in enumerate(worlds()) if b.name == w[0]]


def spec_indexes(F, v):
    """(name, {index name: (fields, unique)}) of a stored catalog record."""
    while v is not None and v.op == 'pure' and v.args[0] in ('bytes', 'derefp'):
        v = v.args[1]
    adt = adt_named(F, 'CollectionSpecification')
    if v is None or v.op != 'agg' or v.args[0] != adt:
        return None
    fs = {f[0]: x for f, x in zip(F.adts[adt]['v'][0][2], v.args[2])}
    out = index_map(fs['indexes'])
    if out is None:
        return None
    name = [x for n, x in fs.items() if n in ('_id', 'name', 'id')]
    info = adt_named(F, 'IndexInfo')
    r = {}
    for n, x in out.items():
        if x.op != 'agg' or x.args[0] != info:
            r[n] = x
            continue
        g = {f[0]: y for f, y in zip(F.adts[info]['v'][0][2], x.args[2])}
        ks = index_map(g['keys'])
        r[n] = (tuple(ks) if ks is not None else show(g['keys']), unique_of(F, g['options']))
    return name[0] if name else None, r


def unique_of(F, o):
    if o.op == 'agg' and o.args[0] == adt_named(F, 'IndexOptions'):
        g = {f[0]: y for f, y in zip(F.adts[o.args[0]]['v'][0][2], o.args[2])}
        return unique_of(F, g['unique'])
    if o is NONE:
        return 0
    if o.op == 'agg' and len(o.args[2]) == 1:
        return unique_of(F, o.args[2][0])
    return o.args[1] if o.op == 'c' else show(o)


def text_of(t):
    return t.args[1] if t.op == 'c' and t.args[0] == 's' else const_str(t)


def index_map(t):
    if t.op == 'docins':
        m = index_map(t.args[0])
        k = text_of(t.args[1])
        if m is None or k is None:
            return None
        m = dict(m)
        m[k] = t.args[2]
        return m
    if t.op == 'docrem':
        m = index_map(t.args[0])
        k = text_of(t.args[1])
        if m is None or k is None:
            return None
        return {n: x for n, x in m.items() if n != k}
    return {} if t.op == 'docempty' else None


def doc_valued(s, v):
    return any(k.op == 'disc' and k.args[0] is v and x == ('=', DOCV) for k, x in s.facts.items())


def case(F, j):
    global DOCV
    DOCV = next([v[0] for v in F.adts[a]['v']].index('Document') for a in F.adts if a.endswith('bson::Bson') or a == 'bson::Bson')
    cls, name, k = j
    op, sh, idx, cat, opts, arg, what = worlds()[k]
    ds = documents(SHAPES[sh])
    maps = [{k_.args[1]: v for k_, v in doc_items(d)} for d in ds]
    b = next(x for c, x in methods(F) if c == cls and x.name == name)
    if op == 'create_index':
        on, ou = opts
        o = NONE if opts == (None, None) else mk_some(struct(F, 'IndexOptions', name=mk_some(S_(on)) if on else NONE, unique=mk_some(I_(ou)) if ou is not None else NONE))
        args = [struct(F, 'IndexModel', keys=doc((arg, ONE())), options=o)]
    else:
        args = [S_(arg)] if arg else []
    mon = DdlMon(F, database(F, ds, idx, cat), idx)
    I, outs = run_world(F, b, mon, args)
    bad, paths, writes = [], 0, 0
    names = [x[0] for x in F.adts[adt_named(F, 'Error')]['v']]

    def put(k_, d, s):
        bad.append((k_, d, I.trace(s)))
    spec0 = {n: ((f,), 0) for n, f in idx}
    ok = 0
    for s, r in outs:
        r = I.deepval(s, r)
        c, runs, ws = s.mon[1][:3]
        if result_kind(r, s, I) == 'err':
            e = show(r)
            if what == 'conflict' or 'DbIsClosed' in e or ('Duplicate' in e and opts and opts[1]):
                continue
            put('fails', 'fails with %s' % e[:150], s)
            continue
        if what == 'conflict':
            put('conflict', 'reports success although the index name belongs to another index', s)
            continue
        ok += 1
        paths += 1
        writes += len(ws)
        # state after
        have = {(n, maps[i][f], maps[i]['_id']) for n, f in idx for i in range(len(ds)) if f in maps[i]}
        stored = {m['_id'] for m in maps}
        spec, dropped = (dict(spec0) if cat else None), False
        allix = dict(idx)
        strange = False
        puts = []
        for o_, kk, val in ws:
            kd = kind_of(kk)
            es = [const_str(x) for x in elems(kk)]
            if 'col' not in es:
                put('foreign', '%s a record outside the collection: %s' % ('writes' if o_ == PUT else 'removes', show(kk)[:150]), s)
                strange = True
            elif kd == 'catalog':
                if o_ == PUT:
                    x = spec_indexes(F, val)
                    if x is None:
                        put('unknown', 'the catalog record it writes is not known: %s' % show(val)[:200], s)
                        strange = True
                    else:
                        spec = x[1]
                        if x[0] is None or text_of(x[0]) != 'col':
                            put('catalog', 'the catalog record it writes is of another collection', s)
                else:
                    spec, dropped = None, True
            elif kd == 'index':
                puts.append((o_, kk))
            else:
                i = next((strip(m['_id']) for m in maps if any(strip(m['_id']) is strip(x) for x in elems(kk))), None)
                if o_ == DELETE and i is not None:
                    stored.discard(i)
                else:
                    put('document', '%s a document: %s' % ('stores' if o_ == PUT else 'removes', show(kk)[:150]), s)
        if strange:
            continue
        for n in (spec or {}):
            if n not in allix and isinstance(spec[n], tuple) and len(spec[n][0]) == 1:
                allix[n] = spec[n][0][0]
        for o_, kk in puts:
            es = [strip(x) for x in elems(kk)]
            nm = [const_str(x) for x in elems(kk)]
            t = next(((n, m[f], m['_id']) for n, f in allix.items() if n in nm for m in maps if f in m and any(x is strip(m[f]) for x in es[2:]) and any(x is strip(m['_id']) for x in es[2:])), None)
            if t is None:
                put('entry', '%s an index entry of no document and index: %s' % ('writes' if o_ == PUT else 'removes', show(kk)[:150]), s)
                continue
            (have.add if o_ == PUT else have.discard)(t)
        if any(x[1] == 'compile_delete_all' for x in runs if x[0] == 'ran'):
            good = [x for x in mon.compiled_for if x[0] == 'compile_delete_all' and 'col' in x[1]]
            if len(good) != len(mon.compiled_for) or not good:
                put('program', 'runs a program compiled for another collection', s)
            elif not all(x[2] for x in good):
                put('program', 'runs a program compiled without the indexes of the collection', s)
            stored = set()
            have = {t for t in have if t[0] not in spec0}       # the program removes the entries of the indexes it was compiled with (C10)
        elif any(x[0] == 'ran' for x in runs):
            put('program', 'runs the program(s) %s' % (runs,), s)
        # what the operation promises
        want = {(n, m[f], m['_id']) for n, f in allix.items() if spec is not None and n in spec for m in maps if f in m}
        optional = {t for t in want if doc_valued(s, t[1])}
        if op == 'drop':
            if spec is not None:
                put('catalog', 'the catalog record of the dropped collection is left behind', s)
            if stored:
                put('documents', '%d documents of the dropped collection are left behind' % len(stored), s)
            if [t for t in have if not doc_valued(s, t[1])]:
                put('entries', 'index entries of the dropped collection are left behind', s)
            continue
        if stored != {m['_id'] for m in maps}:
            put('documents', 'documents are removed', s)
        if op == 'create_index' and what == 'new':
            new = {n: x for n, x in (spec or {}).items() if n not in spec0}
            if len(new) != 1 or list(new.values())[0] != ((arg,), 1 if opts[1] else 0):
                put('catalog', 'the catalog does not hold the new index: %s' % (spec,), s)
            elif opts[0] and list(new) != [opts[0]]:
                put('catalog', 'the new index is called %s, not %s' % (list(new)[0], opts[0]), s)
        elif op == 'drop_index' and what == 'there':
            if spec is None or arg in spec:
                put('catalog', 'the dropped index is left in the catalog', s)
        elif ws and (spec or {}) != (spec0 if cat else {}):
            put('catalog', 'the catalog changes: %s' % (spec,), s)
        gone = {n for n in spec0 if n not in (spec or {})} - ({arg} if op == 'drop_index' else set())
        if gone:
            put('catalog', 'the index %s disappears from the catalog' % sorted(gone), s)
        if want - have - optional:
            put('missing', 'documents already stored have no entry in index %s' % sorted({t[0] for t in want - have - optional}), s)
        if [t for t in have - want if not doc_valued(s, t[1])]:
            put('left', 'entries of the dropped index are left behind', s)
    if not ok and what != 'conflict':
        bad.append(('never', 'succeeds on no path', ()))
    return {'bad': [(k_, d, [t] if isinstance(t, str) else list(map(str, t))[-10:]) for k_, d, t in bad], 'paths': paths, 'writes': writes}


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('create_index, drop_index and drop of both collection kinds are executed abstractly on databases of 0 to 3 documents with unknown '
             'values (with and without the indexed field), 0 to 2 indexes and another collection, storage iterators walking the known records. '
             'On each successful path: a created index is in the catalog next to the others and every stored document with a value for its field has '
             'an entry under its name; a dropped index is in neither catalog nor entries, the others untouched; a dropped collection leaves no '
             'catalog record, and its documents and entries are removed, or by the delete-all program, compiled for this collection with its '
             'indexes, which is executed abstractly too (documents and entries of every candidate removed). Nothing of another collection is written.')
    cs = cases(F)
    for j, r in zip(cs, parallel(F, case, cs)):
        op, sh, idx, cat, opts, arg, what = worlds()[j[2]]
        for k, d, tr in r['bad']:
            ctx.viol('%s:%s:%s' % (k, j[1], j[0]), '%s::%s (%s, %s, indexes %s%s): %s' % (
                j[0], j[1], sh, what, ['%s on %s' % x for x in idx], '' if cat else ', collection not in the catalog', d), tr)
        ctx.count('databases')
        ctx.count('successful_paths', r['paths'])
        ctx.count('writes_judged', r['writes'])
    js = [('delete_all', '', 1, n, w, 0, m, e, u) for n in (1, 2, 3) for w in ('none', 'b', 'ab') for m in ((), ('b',)) for e in (False, True) for u in (False, True)
          if not (u and w == 'none') and (ctx.tier == 'thorough' or n == 2 or not u)]
    tot = run_jobs(ctx, 'C10', js)
    t2 = run_jobs(ctx, 'C27', js)
    ctx.count('delete_all_programs', len(js))
    ctx.count('documents_removed', tot['done'])
    ctx.floor('databases', 40)
    ctx.floor('writes_judged', 60)
    ctx.floor('documents_removed', 20)
