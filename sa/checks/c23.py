"""C23: aggregation stages are fed each document once and the end once. Pipelines are compiled by the source's own generator and run
by its own machine with its own stages, all abstractly, on 0..n documents with known field names and unknown values; what every
stage is fed, and the rows that come out, are compared with the specified ones."""
import itertools
from pipes import *

RESTS = []


def i32(k):
    return bson('Int32', I_(k))


def i64(k):
    return bson('Int64', I_(k))


V = T('par', 'V')


def stages(F):
    """name -> (stage document entry, meaning: documents -> (documents, or None when it cannot be told))"""
    setup(F)
    st = {}
    def put(d, k, v):
        return [(a, v if a == k else b) for a, b in d] + ([] if any(a == k for a, _ in d) else [(k, v)])
    def get(d, k):
        return dict(d).get(k, bson('Null'))
    for k in (0, 1, 2):
        st['skip%d' % k] = (('$skip', i32(k)), lambda ds, env, k=k: ds[k:])
        st['limit%d' % k] = (('$limit', i64(k)), lambda ds, env, k=k: ds[:k])
    st['count'] = (('$count', bstr('n')), lambda ds, env: [[('n', i64(len(ds)))]] if ds else Either([], [[('n', i64(0))]]))
    st['unset'] = (('$unset', bstr('a')), lambda ds, env: [[x for x in d if x[0] != 'a'] for d in ds])
    st['unset2'] = (('$unset', barr(bstr('zz'), bstr('a'))), lambda ds, env: [[x for x in d if x[0] != 'a'] for d in ds])
    st['add'] = (('$addFields', bdoc(('z', bstr('$a')), ('b', i32(7)))), lambda ds, env: [put(put(d, 'z', get(d, 'a')), 'b', i32(7)) for d in ds])
    st['adds'] = (('$addFields', bdoc(('y', bstr('text')))), lambda ds, env: [put(d, 'y', bstr('text')) for d in ds])
    st['group'] = (('$group', bdoc(('_id', bson('Null')), ('n', bdoc(('$sum', i32(1)))))),
                   lambda ds, env: [[('_id', bson('Null')), ('n', i64(len(ds)))]] if ds else Either([], [[('_id', bson('Null')), ('n', i64(0))]]))
    st['sort'] = (('$sort', bdoc(('a', i32(1)))), lambda ds, env: env.sorted(ds, (('a', 1),)))
    st['sortd'] = (('$sort', bdoc(('a', i64(-1)), ('b', i32(1)))), lambda ds, env: env.sorted(ds, (('a', -1), ('b', 1))))
    st['match'] = (('$match', bdoc(('a', bdoc(('$gt', V))))), lambda ds, env: env.match(ds))
    st['all'] = (('$match', bdoc()), lambda ds, env: ds)
    return st


class Either(list):
    """One of two outcomes, both acceptable."""

    def __init__(self, a, b):
        list.__init__(self, a)
        self.other = b


class Unsure(Exception):
    pass


class Order:
    """The comparisons an execution made, and what follows from them."""

    def __init__(self, ev):
        self.c = {}
        for e in ev:
            if e[0] == 'cmp':
                self.c[(e[1], e[2])] = e[3]
                self.c[(e[2], e[1])] = -e[3]

    def cmp(self, x, y):
        if x is y:
            return 0
        return self.c.get((x, y))

    def match(self, ds):
        out = []
        for d in ds:
            v = dict(d).get('a')
            if v is None:
                continue
            o = self.cmp(v, V)
            if o is None:
                raise Problem('a document is not tested against the $match condition')
            if o > 0:
                out.append(d)
        return out

    def doc_cmp(self, x, y, keys):
        for k, s in keys:
            a, b = dict(x).get(k), dict(y).get(k)
            if a is None and b is None:
                continue
            if a is None or b is None:
                return 'free'
            o = self.cmp(a, b)
            if o is None:
                return None
            if o:
                return o * s
        return 0

    def sorted(self, ds, keys):
        """The only order the comparisons allow (equal documents keep theirs); impossible combinations of comparisons are skipped."""
        ds = list(ds)
        fits = []
        for perm in itertools.permutations(range(len(ds))):
            good = True
            for i, j in itertools.combinations(range(len(perm)), 2):
                o = self.doc_cmp(ds[perm[i]], ds[perm[j]], keys)
                if o == 'free':
                    raise Unsure('a missing sort key')
                if o is not None and (o > 0 or o == 0 and perm[i] > perm[j]):
                    good = False
                    break
            if good:
                fits.append([ds[k] for k in perm])
        if not fits:
            raise Unsure('comparisons that contradict each other')
        if len(fits) > 1:
            # transitivity settles what was not compared
            raise Unsure('comparisons not made') if len(ds) > 2 else Problem('documents are ordered without comparing their sort keys')
        return fits[0]


def term_doc(d):
    return bson('Document', doc(*d))


def same(rows, want):
    if len(rows) != len(want):
        return False
    for r, d in zip(rows, want):
        items = doc_items(r.args[2][0]) if r.op == 'agg' and r.args[0] == BS and len(r.args[2]) == 1 else None
        if items is None or [(k.args[1], I_strip(v)) for k, v in items] != [(k, I_strip(v)) for k, v in d]:
            return False
    return True


def I_strip(v):
    return v


def words(rows):
    out = []
    for r in rows:
        items = doc_items(r.args[2][0]) if r.op == 'agg' and r.args[0] == BS and len(r.args[2]) == 1 else None
        out.append('{%s}' % ', '.join('%s: %s' % (k.args[1], show(v)[:30]) for k, v in items) if items is not None else show(r)[:60])
    return '[%s]' % ', '.join(out)


def compare(names, label, k, outs, rows, seqs):
    """A complaint when the rows and what the stages were fed are not these."""
    if not same(rows, outs[-1]):
        return 'rows', 'the pipeline [%s] on %d documents returns %s instead of %s' % (label, k, words(rows), words([term_doc(d) for d in outs[-1]]))
    cut = 1 if names[0] in ('match', 'all') else 0
    ins = outs[cut:-1]
    if len(seqs) != len(ins):
        return 'fed', 'the pipeline [%s] on %d documents feeds %d of its %d stages' % (label, k, len(seqs), len(ins))
    left = list(ins)
    for seq in seqs:
        docs = [x for x in seq if x is not bson('Null')]
        if len(docs) == len(seq):
            return 'end-missing', 'the pipeline [%s] on %d documents never tells a stage that its input has ended' % (label, k)
        if seq[:len(docs)] != docs:
            return 'after-end', 'the pipeline [%s] on %d documents feeds a stage after its end of input' % (label, k)
        fit = [w for w in left if same(docs, w)]
        if not fit:
            return 'fed', 'the pipeline [%s] on %d documents feeds a stage %s' % (label, k, words(docs))
        left.remove(fit[0])
    return None


def judge(F, names, n, missing, indexes=()):
    st = stages(F)
    pipe = [st[x][0] for x in names]
    val = lambda f, i: bson('String', T('par', '%s%d' % (f, i)))
    cands, maps, res, rej, panics, steps = run_pipe(F, pipe, n, missing=missing, val=val, indexes=indexes)
    label = ' '.join(names) + (' (a missing)' if missing else '') + (' (indexed)' if indexes else '')
    bad = []
    counted = unsure = fed = 0
    if rej:
        bad.append(('rejected', 'the pipeline [%s] is rejected: %s' % (label, show(rej[0])[:120]), []))
    for w, *_ in panics:
        bad.append(('panic', 'the pipeline [%s] can panic: %s' % (label, w), []))
    full = 0
    for k, rows, why, ev, s, I in res:
        if why == 'more':
            continue
        tr = I.trace(s)
        if why == 'bad':
            bad.append(('bad', 'the pipeline [%s] on %d documents: %s' % (label, k, ev[-1][1] if ev else ''), tr))
            continue
        if why != 'halt':
            bad.append(('end', 'the pipeline [%s] on %d documents ends with %s %s' % (label, k, why, show(ev[-1][1])[:120] if ev and ev[-1][0] == 'error' else ''), tr))
            continue
        order = Order(ev)
        ds = [[(f, v) for f, v in m.items()] for m in maps[:k]]
        try:
            chains = [[ds]]
            for x in names:
                nxt = []
                for c in chains:
                    o = st[x][1](c[-1], order)
                    nxt.append(c + [list(o)])
                    if isinstance(o, Either):
                        nxt.append(c + [o.other])
                chains = nxt
        except Unsure:
            unsure += 1
            continue
        except Problem as e:
            bad.append(('rows', 'the pipeline [%s] on %d documents: %s' % (label, k, e), tr))
            continue
        counted += 1
        full += k == n
        feeds = {}
        for e in ev:
            if e[0] == 'feed':
                feeds.setdefault(e[1], []).append(e[2])
        tries = [compare(names, label, k, outs, rows, list(feeds.values())) for outs in chains]
        fed += len(feeds)
        if all(tries):
            bad.append(min(tries, key=lambda t: t[0] == 'rows') + (tr,))
    if not full and not bad and not unsure:
        bad.append(('none', 'the pipeline [%s]: no execution over %d documents was found' % (label, n), []))
    return bad, counted, unsure, fed, steps


def jobs(F, tier):
    st = stages(F)
    cheap = [x for x in st if x not in ('sort', 'sortd')]
    acc = ('count', 'group', 'sort')
    out = []
    for x in st:
        n = 2 if x == 'sortd' else 3
        out.append(((x,), n, ()))
        if x in ('unset', 'unset2', 'add', 'match'):
            out.append(((x,), 2, ('a',)))
    per = ('skip1', 'limit1', 'unset', 'add')
    for x in per + acc:
        for y in per + acc:
            out.append(((x, y), 2 if 'sort' in (x, y) else 3, ()))
    for y in per + acc:
        out.append((('match', y), 2, ()))
        out.append((('all', y), 2, ()))
    out += [(('match', 'skip1', 'limit1'), 3, ()), (('all', 'skip1', 'limit1', 'count'), 3, ()), (('skip1', 'sort', 'limit1'), 3, ()), (('unset', 'add', 'count'), 2, ()), (('sort', 'group', 'adds'), 2, ()),
            (('count', 'add', 'unset'), 2, ()), (('add', 'sort', 'skip1'), 2, ()), (('limit2', 'skip1', 'count'), 3, ()), (('count', 'count', 'count'), 2, ()), (('sort', 'sort', 'count'), 2, ())]
    if tier == 'thorough':
        out += [((x, y, z), 2, ()) for x in per + acc for y in per + acc for z in per + acc]
    return out


def check(ctx):
    F = ctx.F
    js = jobs(F, ctx.tier)
    for (names, n, missing), (bad, counted, unsure, fed, steps) in zip(js, parallel(F, lambda F, j: judge(F, *j), js)):
        ctx.count('pipelines')
        ctx.count('executions_judged', counted)
        ctx.count('executions_undetermined', unsure)
        ctx.count('stage_inputs_compared', fed)
        ctx.count('blocks_interpreted', steps)
        for kind, msg, tr in bad:
            ctx.viol('%s:%s' % (kind, '-'.join(names)), msg, tr)
    ctx.sample('pipelines: %s' % '; '.join(' '.join(j[0]) for j in js[:40]))
    ctx.rule('Pipelines of up to four stages are compiled by the source\'s own generator; the machine and the stages are interpreted abstractly on the program for 0 to 3 documents with '
             'known field names and unknown values. On every execution each stage must be fed exactly the documents the stage before it yields, in order, then the end of its input, '
             'nothing after it, and the rows returned must be those the pipeline specifies.')
    ctx.floor('executions_judged', 200)
    ctx.floor('stage_inputs_compared', 300)
