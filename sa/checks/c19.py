"""C19: the access path does not change a query's meaning. Queries that the planner answers by primary key, through an index or by
a full scan are compiled for collections with and without indexes; the source's own interpreter is run on the programs, and for
every outcome of the storage and of the comparisons a candidate must be selected exactly when the query holds for it - where a
key that was found equal to the encoding of a value establishes the condition on the key's field and nothing else does."""
from query import *


class PathEnv(Env):
    def __init__(self, events, fields, I, st, place, indexes):
        Env.__init__(self, events, fields, I, st)
        for k in place:
            e = elems(k)
            s = [const_str(x) for x in e]
            if len(e) == 2 and s[0] == 'col':
                self.same('_id', e[1])
            elif len(e) == 4 and s[:2] == ['$I', 'col']:
                for n, f in indexes:
                    if n == s[2]:
                        self.same(f, e[3])

    impossible = False

    def doc(self, d):
        return None if self.impossible else Env.doc(self, d)

    def same(self, f, v):
        x = self.fields.get(f)
        if x is None:
            self.free = self.impossible = True          # no such entry exists
        else:
            self.cmp[(x, v)] = self.cmp[(v, x)] = 0


class PathTrial(Trial):
    def __init__(self, F, ast, fields, missing=(), indexes=(), **kw):
        self.indexes = indexes
        Trial.__init__(self, F, ast, fields, missing, indexes, **kw)

    def env(self, segs, j, k, I, st):
        place, since = [], []
        for e in segs[j - 1][1]:
            if e[0] == 'ffi' and e[1] in (SEEK, NEXT):
                since = []
            if e[0] == 'prefix' and e[3] and is_key(e[2]) or e[0] == 'keycmp' and e[3] == 0:
                since += [x for x in e[1:3] if is_key(x)]
                place += [x for x in e[1:3] if is_key(x)]
        self.located.append((place, since))
        return PathEnv([e for s in segs[:j + 1] for e in s[1]], self.maps[k], I, st, place, self.indexes)

    located = ()

    def judge(self, result=None):
        self.located = []
        out = Trial.judge(self, result)
        for place, since in self.located:
            if not any(const_str(x) == 'col' for k in since for x in elems(k)[:1]):
                out.append(('place', 'is fetched without having been found under the key prefix of its collection', 0, []))
        return out


def oid(f, i):
    return bson('ObjectId', T('par', '%s%d' % (f, i)))


def vm_field(F, st, root, I, name):
    vm = I.load(st, root)
    for i, f in enumerate(F.adts[adt_named(F, 'VM')]['v'][0][2]):
        if f[0] == name:
            return proj(vm, ('f', None, i))
    return None


def cursor_index(F):
    a = adt_named(F, 'VM')
    for i, f in enumerate(F.adts[a]['v'][0][2]):
        for c in F.crates.values():
            if a in c.adts:
                t = c.types[c.adts[a]['v'][0][2][i][1]]['s']
                if re.fullmatch(r'std::option::Option<(\w+::)*Cursor>', t):
                    return i
    raise Missing('the cursor of the machine')


def wrote(es, k, doc):
    return any(e[0] == 'update' or e[0] == 'ffi' and e[1] in (PUT, DELETE) and kind_of(e[2]) != 'index' for e in es)


def duplicate(ev):
    def has(t):
        return isinstance(t, Term) and (t.op == 'agg' and str(t.args[0]).endswith('DuplicateKeyError') or any(has(x) or isinstance(x, tuple) and any(map(has, x)) for x in t.args))
    return any(e[0] == 'error' and has(e[1]) for e in ev)


def jobs(tier):
    v, w, x = scalar('va'), scalar('vb'), scalar('vc')
    gt = lambda y: ops(('$gt', y))
    pk = [q(('_id', v)), q(('_id', v), ('b', w)), q(('b', w), ('_id', v)), q(('_id', v), ('b', gt(w))), q(('b', gt(w)), ('_id', v)),
          q(('_id', v), ('b', w), ('c', x)), q(('b', w), ('_id', v), ('c', x)), q(('_id', v), OR(q(('b', w)), q(('c', x)))),
          q(('_id', v), ('b', ops(('$in', ('arr', (w, x)))))), q(('_id', v), AND(q(('b', w)), q(('c', gt(x))))), q(AND(q(('_id', v)), q(('b', w)))),
          q(('_id', ops(('$eq', v))), ('b', w)), q(('_id', gt(v)), ('b', w)), q(('_id', ops(('$gt', v), ('$lt', w)))),
          q(('_id', v), ('b', ops(('$gt', w), ('$lt', x)))), q(('_id', v), ('b', ops(('$not', gt(w))))), q(('_id', ops(('$ne', v))), ('b', w)),
          q(OR(q(('_id', v)), q(('b', w))))]
    ix = [q(('b', v)), q(('b', v), ('c', w)), q(('c', w), ('b', v)), q(('b', v), ('c', gt(w))), q(('b', gt(v)), ('c', w)), q(('b', v), ('c', w), ('d', x)),
          q(('d', x), ('c', w), ('b', v)), q(('b', v), OR(q(('c', w)), q(('d', x)))), q(('b', v), ('_id', w)), q(('b', ops(('$eq', v))), ('c', w)),
          q(AND(q(('b', v)), q(('c', w)))), q(OR(q(('b', v)), q(('c', w)))), q(('b', ops(('$in', ('arr', (v, w)))))), q(('c', w))]
    worlds = [(), (('ix', 'b'),), (('iy', 'c'),), (('ix', 'b'), ('iy', 'c')), (('iy', 'c'), ('ix', 'b'))]
    out = []
    pats = ['compile_query', 'compile_update', 'compile_delete', 'compile_aggregate']
    for s in pk:
        for p in pats:
            out.append((s, 'bc', (), (), 1, p))
        for m in ('b', 'c'):
            if any(m in str(k) for k, _ in s[1]):
                out.append((s, 'bc', (m,), (), 1, 'compile_query'))
        out.append((s, 'bc', (), worlds[3], 1, 'compile_query'))
    for s in ix:
        for wd in worlds[1:]:
            out.append((s, 'bcd', (), wd, 1, 'compile_query'))
        for p in pats[1:]:
            out.append((s, 'bcd', (), worlds[3], 1, p))
        for m in 'bcd':
            if any(m in str(k) for k, _ in s[1]):
                out.append((s, 'bcd', (m,), worlds[1], 1, 'compile_query'))
        out.append((s, 'bcd', (), worlds[1], 2, 'compile_query'))
    return out


def run_job(F, job):
    s, fields, missing, world, n, pat = job
    kw = {}
    result = None
    if pat == 'compile_update':
        kw['update'] = doc(('$set', bdoc(('z', bson('ObjectId', T('par', 'v:set'))))))
        result = wrote
    elif pat == 'compile_delete':
        result = wrote
    elif pat == 'compile_aggregate':
        kw['pipeline'] = [doc(('$match', to_term(s)))]
    t = PathTrial(F, s, fields, missing, world, n=n, val=oid, pat=r'.*SubProgram::%s' % pat, **kw)
    probs = t.judge(result) if t.programs else []
    ci = cursor_index(F)
    halts = 0
    for I, p, ev, why, st, root in t.paths:
        if why == 'halt':
            halts += 1
            r1 = proj(I.load(st, root), ('f', None, ci))
            if r1 is not NONE and I.known(st, mk_disc(r1)) != 0:
                probs.append(('open', 'the search ends without the cursor being closed', -1, ev))
    layout = 'index' if 'FindByIndex' in t.ops else 'pkey' if 'FindByPrimaryKey' in t.ops else 'scan'
    # refusing an update is not the search's doing
    probs = [p for p in probs if p[0] != 'fails' or pat != 'compile_update' or not duplicate(p[3][-1:])]
    if layout == 'pkey':
        probs = [p for p in probs if p[0] != 'ends']
    return {'query': text(s), 'probs': [(k, d, c, story(es)) for k, d, c, es in probs], 'judged': getattr(t, 'judged', 0), 'took': getattr(t, 'took', 0),
            'left': getattr(t, 'left', 0), 'paths': len(t.paths), 'programs': len(t.programs), 'steps': t.steps, 'fetches': t.fetches, 'halts': halts,
            'layout': layout, 'ops': sorted(t.ops)}


def check(ctx):
    F = ctx.F
    setup(F)
    js = jobs(ctx.tier)
    ctx.rule('for every query of the family (equality, operators, lists, on _id, on indexed and other fields, in different orders), every set of '
             'indexes of the collection and every operation compiled from it (find, update, delete, aggregate): on every execution a candidate '
             'is selected iff the query holds for it; it was found under its collection\'s key prefix; a key comparison establishes only the '
             'condition it encodes; a rejected candidate does not end the search; the cursor is closed when the search ends')
    layouts = {}
    for j, r in zip(js, parallel(F, run_job, js)):
        s, fields, missing, world, n, pat = j
        ctx.count('queries')
        ctx.count('paths', r['paths'])
        ctx.count('verdicts', r['judged'])
        ctx.count('layout_' + r['layout'])
        ctx.count('instructions_executed', r['fetches'])
        name = '%s of %s%s%s' % (pat, r['query'], ' with index on %s' % ','.join(f for _, f in world) if world else '', ' without ' + ','.join(missing) if missing else '')
        key0 = re.sub(r'[^A-Za-z0-9$\[\]{}:,/]', '', '%s/%s/%s' % (pat, r['query'], ','.join(f for _, f in world)))
        if not r['programs']:
            ctx.viol('rejected:' + key0, '%s is not compiled' % name)
        seen = set()
        for k, d, c, sto in r['probs']:
            if k in seen:
                continue
            seen.add(k)
            if k == 'ends' and r['layout'] == 'index':
                ctx.viol('ends:index-layout', '%s: a candidate %s [%s]' % (name, d, sto))
            else:
                ctx.viol('%s:%s' % (k, key0), '%s: a candidate %s [%s]' % (name, d, sto))
        if r['programs'] and not missing and (not r['took'] or not r['halts']):
            ctx.viol('vacuous:' + key0, '%s: no execution selects a candidate and comes to an end' % name)
        ctx.sample('%s: %s layout, %d verdicts' % (name, r['layout'], r['judged']))
    ctx.floor('queries', 120)
    ctx.floor('verdicts', 500)
