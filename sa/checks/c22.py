"""C22: the order of $sort is determined by its specification. The comparison the sort stage makes is interpreted abstractly, through
the program of a $sort pipeline, for two documents whose sort values range over every pair of kinds, present or missing; the
outcomes must form one order of the kinds, follow the comparisons of the values within a kind, and reverse with the direction."""
import itertools
from checks.c23 import *
import engine

CMPS = ('cmp', 'partial_cmp', 'total_cmp')
NUMBERS = ('Int32', 'Int64', 'Double')


class SortMon(PipeMon):
    """Comparisons of values of one kind have three outcomes and are recorded; floats may also be unordered."""

    def opaque_body(self, I, b):
        return PipeMon.opaque_body(self, I, b) and b.id not in self.value_cmp

    def model(self, I, st, fn, args, info):
        n = fn.get('n')
        if n in CMPS and len(args) == 2:
            x, y = (I.deepval(st, a) for a in args)
            if not (x.op == 'c' and y.op == 'c') and x.op != 'agg':
                return self.primitive(I, st, n, x, y, info)
            if x.op == 'agg' and x.args[0] in ('core::option::Option', 'tuple'):
                return None
            if x.op == 'agg':
                return self.primitive(I, st, n, x, y, info)
        b = I.resolve(st, fn, args) if len(args) == 2 else None
        if b is not None and b.id in self.value_cmp:
            return None
        return PipeMon.model(self, I, st, fn, args, info)

    def primitive(self, I, st, n, x, y, info):
        if x is y and n != 'partial_cmp':
            o = 0
        else:
            o = self.known(st, 'cmp', x, y)
        outs = []
        isf = n == 'partial_cmp' and any('f64' in info.body.crate.types[t]['s'] for t in info.argtys or ())
        for i in ((-1, 0, 1) + ((None,) if isf else ()) if o is None else (o,)):
            s = st.copy()
            if o is None:
                self.push(s, 'cmp', x, y, i)
            if i is None:
                outs.append((s, engine.NONE if hasattr(engine, 'NONE') else NONE))
                continue
            r = T('agg', 'core::cmp::Ordering', i + 1, ())
            outs.append((s, mk_some(r) if n == 'partial_cmp' else r))
        return outs

    def known(self, st, kind, a, b):
        for e in self.ev(st):
            if e[0] == 'cmp' and kind == 'cmp' and e[3] is not None:
                if e[1] is a and e[2] is b:
                    return e[3]
                if e[1] is b and e[2] is a:
                    return -e[3]
        return None


def leaves(t):
    return {p.args[0] for p in pars(t)}


def exact(t, leaf):
    """Does the unknown enter the term without passing through a conversion to a float?"""
    if not isinstance(t, Term):
        return False
    if t.op == 'par':
        return t.args[0] == leaf
    if t.op == 'cast' and 'f64' in str(t.args[0]):
        return False
    if t.op == 'cast' and any(isinstance(a, str) and 'f64' in a for a in t.args):
        return False
    return any(exact(a, leaf) for a in t.args if isinstance(a, Term)) or any(exact(b, leaf) for a in t.args if isinstance(a, tuple) for b in a)


def kinds(F):
    return [v[0] for v in F.adts[BS]['v']]


def value(F, k, name):
    if k == 'missing':
        return None
    i = bson_variant(k)
    n = len(F.adts[BS]['v'][i][2])
    if n == 0:
        return bson(k)
    if k == 'Array':
        return barr(T('par', name))
    if k == 'Document':
        return bdoc(('q', T('par', name)))
    return T('agg', BS, i, tuple(T('par', name if j == 0 else '%s-%d' % (name, j)) for j in range(n)))


def pair(F, k0, k1, sign, op=i32):
    """[(order of the two documents 0 / 1 first, comparisons, state, I)], problems"""
    setup(F)
    vs = [value(F, k0, 'p'), value(F, k1, 'q')]
    docs, maps = [], []
    for i, v in enumerate(vs):
        m = {'_id': T('par', 'id%d' % i)}
        if v is not None:
            m['a'] = v
        docs.append(doc(*m.items()))
        maps.append(m)
    cands, maps, res, rej, panics, steps = run_pipe(F, [('$sort', bdoc(('a', op(sign))))], 2, cands=(docs, maps), cls=SortMon)
    return docs, res, rej, panics, steps


def judge_pair(F, job):
    k0, k1, sign = job
    docs, res, rej, panics, steps = pair(F, k0, k1, sign)
    bad, outs = [], []
    what = 'a sort of %s and %s (%s)' % (k0, k1, 'ascending' if sign > 0 else 'descending')
    for w, *_ in panics:
        bad.append(('panic:%s' % w[:60], '%s can panic: %s' % (what, w), []))
    if rej:
        bad.append(('rejected', '%s is rejected' % what, []))
    for n, rows, why, ev, s, I in res:
        if n != 2 or why == 'more':
            continue
        if why != 'halt':
            bad.append(('ends:%s-%s' % (k0, k1), '%s ends with %s' % (what, why), I.trace(s)))
            continue
        ids = [next((i for i, d in enumerate(docs) if r is bson('Document', d)), None) for r in rows]
        if sorted(map(str, ids)) != ['0', '1']:
            bad.append(('rows:%s-%s' % (k0, k1), '%s returns %s' % (what, words(rows)), I.trace(s)))
            continue
        cmps = []
        for e in ev:
            if e[0] == 'cmp':
                a, b = leaves(e[1]), leaves(e[2])
                side = lambda t: {x[0] for x in t} - {'i'}
                cmps.append((e[3], 1 if side(a) <= {'p'} and side(b) <= {'q'} else -1 if side(a) <= {'q'} and side(b) <= {'p'} else 0, e[1], e[2]))
        order = [e for e in ev if e[0] == 'order']
        # outcome of the comparison of document 0 with document 1, direction removed
        o = {(e[3] if e[1] is docs[0] else -e[3]) * sign for e in order}
        if len(o) != 1:
            bad.append(('inconsistent:%s-%s' % (k0, k1), '%s: the same two documents compare differently the second time' % what, I.trace(s)))
            continue
        o = o.pop()
        if any(e for e in ev if e[0] == 'sorted' and 'unstable' in e[1]) and o == 0:
            bad.append(('unstable', 'documents with equal sort keys are ordered by an unstable sort', I.trace(s)))
        outs.append((o, tuple((c, g, exact(x, 'p') or exact(y, 'p'), exact(x, 'q') or exact(y, 'q')) for c, g, x, y in cmps), I.trace(s, 6)))
    return bad, outs, steps


def check(ctx):
    F = ctx.F
    setup(F)
    ks = kinds(F) + ['missing']
    js = [(a, b, s) for a in ks for b in ks for s in (1, -1) if s == 1 or ctx.tier == 'thorough' or a in ('Int32', 'String', 'missing', 'Null', 'Boolean') or b in ('Double', 'Int64')]
    rel = {}
    for (a, b, s), (bad, outs, steps) in zip(js, parallel(F, judge_pair, js)):
        ctx.count('kind_pairs')
        ctx.count('comparisons_judged', len(outs))
        ctx.count('blocks_interpreted', steps)
        for k, m, tr in bad:
            ctx.viol(k, m, tr)
        what = 'a sort of %s and %s (%s)' % (a, b, 'ascending' if s > 0 else 'descending')
        for o, cmps, tr in outs:
            dec = [c for c in cmps if c[0] != 0]
            if any(c[0] is None for c in cmps):
                if dec[-1][0] is None and o == 0:
                    ctx.viol('unordered:%s-%s' % (a, b), '%s: numbers that are not comparable (NaN) count as equal to everything, so the order is not determined' % what, tr)
                continue
            if any(c[1] == 0 for c in cmps):
                ctx.viol('operands:%s-%s' % (a, b), '%s: the comparison does not relate the two values' % what, tr)
                continue
            if dec:
                want = dec[0][0] * dec[0][1]
                if o != want:
                    ctx.viol('direction:%s-%s' % (a, b), '%s: the first value compares %s and the document comes %s' % (
                        what, {1: 'greater', -1: 'smaller'}[want], {1: 'after', -1: 'before', 0: 'in no particular order'}[o]), tr)
            if (a in NUMBERS) == (b in NUMBERS) and (a == b or a in NUMBERS):
                if not cmps and o != 0:
                    ctx.viol('same-kind:%s-%s' % (a, b), '%s: values of one kind are ordered without being compared' % what, tr)
                if not dec and cmps and o != 0:
                    ctx.viol('equal:%s-%s' % (a, b), '%s: equal values do not count as equal' % what, tr)
                if not dec and a in NUMBERS:
                    if not cmps:
                        ctx.viol('uncompared:%s-%s' % (a, b), '%s: numbers count as equal without being compared' % what, tr)
                    for side, k in ((2, a), (3, b)):
                        if k == 'Int64' and not any(c[side] for c in cmps):
                            ctx.viol('rounded:%s-%s' % (a, b), '%s: a 64-bit integer takes part only rounded to a float, so different integers can count as equal' % what, tr)
            elif cmps:
                ctx.viol('across:%s-%s' % (a, b), '%s: the order of values of different kinds depends on more than their kinds' % what, tr)
            else:
                rel.setdefault((a, b), set()).add(o)
    group = lambda k: 'number' if k in NUMBERS else k
    r2 = {}
    for (a, b), o in rel.items():
        if len(o) != 1:
            ctx.viol('kinds:%s-%s' % (a, b), 'values of kinds %s and %s are ordered differently in different executions or directions' % (a, b))
        r2.setdefault((group(a), group(b)), set()).update(o)
    gs = sorted({g for p in r2 for g in p})
    for (a, b), o in r2.items():
        if len(o) > 1 and a != b:
            ctx.viol('kinds:%s-%s' % (a, b), 'values of kinds %s and %s are ordered differently for different number types' % (a, b))
        if (b, a) in r2 and r2[(b, a)] != {-x for x in o}:
            ctx.viol('antisymmetry:%s-%s' % (a, b), 'the order of %s and %s depends on which comes first' % (a, b))
    for a, b, c in itertools.permutations(gs, 3):
        ab, bc, ac = (next(iter(r2.get(p, {None}))) for p in ((a, b), (b, c), (a, c)))
        ctx.count('kind_triples')
        if None in (ab, bc, ac):
            continue
        if ab <= 0 and bc <= 0 and not (ac <= 0 and (ac < 0) == (ab < 0 or bc < 0)):
            ctx.viol('transitivity', 'the order of kinds is not transitive: %s, %s, %s' % (a, b, c))
    # several keys, both directions, on strings
    ks3 = [((('a', 1), ('b', -1)), i32), ((('b', 1), ('a', 1)), i64), ((('a', -1), ('b', -1)), i32), ((('b', -1),), i64), ((('a', -1),), i32)]
    for (keys, w), (bad, n) in zip(ks3, parallel(F, keyed, ks3)):
        ctx.count('specifications')
        ctx.count('specification_executions', n)
        for k, m, tr in bad:
            ctx.viol(k, m, tr)
    ctx.sample('kinds: %s' % ', '.join(ks))
    ctx.rule('The sort stage is interpreted abstractly, through the program generated for a $sort pipeline, on two documents for every pair of value kinds (and a missing value) and both directions: no pair '
             'may panic; values of different kinds must be ordered by their kinds alone, consistently (antisymmetric, transitive over all triples), numbers being one kind; values of one '
             'kind must be ordered as their comparison says, reversed for a descending key; a float that does not compare must not count as equal to everything; 64-bit integers must take '
             'part unrounded. Specifications of several keys are judged on three documents.')
    ctx.floor('comparisons_judged', 500)
    ctx.floor('specification_executions', 20)


def keyed(F, job):
    keys, w = job
    setup(F)
    val = lambda f, i: bson('String', T('par', '%s%d' % (f, i)))
    bad, n = [], 0
    size = 2
    cands, maps, res, rej, panics, steps = run_pipe(F, [('$sort', bdoc(*[(k, w(s)) for k, s in keys]))], size, val=val)
    what = ', '.join('%s: %d' % x for x in keys)
    if rej:
        bad.append(('rejected', '$sort {%s} is rejected' % what, []))
    for k, rows, why, ev, s, I in res:
        if why == 'more':
            continue
        ds = [list(m.items()) for m in maps[:k]]
        try:
            want = Order(ev).sorted(ds, keys)
        except Unsure:
            continue
        except Problem as e:
            bad.append(('keys', '$sort {%s}: %s' % (what, e), I.trace(s)))
            continue
        n += 1
        if why != 'halt' or not same(rows, want):
            bad.append(('keys', '$sort {%s} returns %s instead of %s' % (what, words(rows), words([term_doc(d) for d in want])), I.trace(s)))
    return bad, n
