"""C17: each comparison operator selects exactly the candidates for which its comparison holds, alone, negated and beside other
conditions: abstract execution of the emitted program for every outcome of the underlying comparison of two values; plus the
tables of the underlying comparisons themselves (which operands, which direction, for every pair of value types)."""
from query import *

SIMPLE = ('$eq', '$ne', '$gt', '$gte', '$lt', '$lte')
LISTS = ('$in', '$nin', '$all')


def O(n):
    return bson('ObjectId', T('par', 'v:' + n))


def regex(pattern='p', options=''):
    return T('agg', 'bson::Regex', 0, (S_(pattern), S_(options)))


def rx(F, pattern, options):
    a = [k for k in F.adts if k.rsplit('::', 1)[-1] == 'Regex' and k.startswith('bson')]
    if len(a) != 1:
        raise Missing('the regular expression type of the database values')
    vals = {'pattern': S_(pattern), 'options': S_(options)}
    return bson('RegularExpression', T('agg', a[0], 0, tuple(vals[f[0]] for f in F.adts[a[0]]['v'][0][2])))


def oid(f, i):
    return bson('ObjectId', T('par', '%s%d' % (f, i)))


def arr(f, i):
    if f != 'a':
        return oid(f, i)
    return barr(*[bson('ObjectId', T('par', 'a%d.%d' % (i, j))) for j in range(2)])


def arr0(f, i):
    return barr() if f == 'a' else oid(f, i)


def string(f, i):
    return bson('String', T('par', '%s%d' % (f, i)))


def contexts(o, v):
    x, y = scalar('vb'), scalar('vc')
    yield q(('a', ops((o, v))))
    yield q(('a', ops(('$not', ops((o, v))))))
    yield q(('a', ops(('$not', ops(('$not', ops((o, v))))))))
    yield q(('a', ops((o, v))), ('b', x))
    yield q(('b', x), ('a', ops((o, v))))
    yield q(('a', ops(('$not', ops((o, v))))), ('b', x))
    yield q(('b', x), ('a', ops(('$not', ops((o, v))))))
    o2 = '$lt' if o == '$gt' else '$gt'
    yield q(('a', ops((o, v), (o2, y))))
    yield q(('a', ops((o2, y), (o, v))))
    yield q(('a', ops(('$not', ops((o, v), (o2, y))))))
    yield q(('a', ops(('$not', ops((o2, y), (o, v))))))
    yield q(OR(q(('a', ops((o, v)))), q(('b', x))))
    yield q(OR(q(('a', ops(('$not', ops((o, v)))))), q(('b', x))))
    yield q(('a.c', ops((o, v))))


def jobs(F, tier):
    out = []
    for o in SIMPLE:
        for s in contexts(o, scalar('va')):
            for miss in ((), ('a',)):
                out.append((s, miss, oid))
    for o in LISTS:
        for vs in ((), (O('x'),), (O('x'), O('y')), (bson('Null'), O('x'))):
            for j, s in enumerate(contexts(o, ('arr', vs))):
                if any('$gt' == z for z in re.findall(r'\$\w+', text(s))):
                    continue
                for val in (oid, arr, arr0):
                    if val is arr0 and j > 2 or len(vs) != 1 and j > 4:
                        continue
                    out.append((s, (), val))
                out.append((s, ('a',), oid))
    for n in (0, 1, 2, 3):
        for j, s in enumerate(contexts('$size', n)):
            if '$gt' in text(s) or j > 6 and n != 2:
                continue
            out.append((s, (), arr))
            out.append((s, ('a',), arr))
    for s in contexts('$regex', rx(F, 'p', '')):
        if '$gt' not in text(s):
            out.append((s, (), string))
            out.append((s, ('a',), string))
    return out


def fieldsof(s):
    return 'ab'


def run_job(F, job):
    s, missing, val = job
    dotted = "'a.c'" in repr(s)
    names = ['a', 'b']
    cands = candidates(names, missing, 1, val)
    if dotted:
        # the field is inside an embedded document
        docs, maps = cands
        mp = dict(maps[0])
        inner = mp.pop('a', None)
        d = doc(*([('_id', mp['_id'])] + ([('a', bdoc(('c', inner)))] if inner is not None else [('a', bdoc(('d', T('par', 'zz'))))]) + [('b', mp['b'])]))
        mp['a.c'] = inner
        cands = ([d], [mp])
    t = Trial(F, s, names, missing, n=1, cands=cands, ends=False)
    probs = t.judge() if t.programs else []
    return {'query': text(s), 'probs': [(k, d, c, story(es)) for k, d, c, es in probs], 'judged': getattr(t, 'judged', 0), 'paths': len(t.paths),
            'programs': len(t.programs), 'fetches': t.fetches}


def describe(val, missing):
    return 'no field a' if missing else {'arr': 'an array in a', 'arr0': 'an empty array in a'}.get(val.__name__, 'a scalar in a')


def check(ctx):
    F = ctx.F
    setup(F)
    js = jobs(F, ctx.tier)
    ctx.rule('for each operator, alone, under $not, doubly negated, beside other operators and conditions, inside $or and on a dotted field: the '
             'emitted program executed by VM::execute selects the candidate iff the operator holds of (field value, operand) under the recorded '
             'outcome of their comparison, for every outcome; a missing field satisfies no comparison ($in/$nin/$all see null there; '
             'negations on a missing field are not judged)')
    for j, r in zip(js, parallel(F, run_job, js)):
        ctx.count('queries')
        ctx.count('paths', r['paths'])
        ctx.count('verdicts', r['judged'])
        ctx.count('instructions_executed', r['fetches'])
        if not r['programs']:
            ctx.viol('rejected:' + shape(j[0]), 'the query %s is not compiled' % r['query'])
        for k, d, c, sto in r['probs'][:1]:
            ctx.viol('%s:%s' % (k, shape(j[0])), 'query %s, candidate with %s: it %s [%s]' % (r['query'], describe(j[2], j[1]), d, sto))
        ctx.sample('%s: %d verdicts' % (r['query'], r['judged']))
    ctx.floor('queries', 150)
    ctx.floor('verdicts', 400)
    compare_table(ctx)
    equality_table(ctx)
    regex_options(ctx)


def shape(s):
    return '+'.join(re.findall(r'\$\w+', text(s)))


# ---------------------------------------------------------------- the comparison of two values
NUM = ('Int32', 'Int64', 'Double')
WIDTH = {'Int32': 0, 'Int64': 1, 'Double': 2}


class CmpMon(EmitMon):
    def call(self, I, st, fn, args, info):
        n = fn.get('n') or ''
        if n in ('cmp', 'total_cmp', 'partial_cmp') and len(args) == 2:
            x, y = (I.deepval(st, a) for a in args)
            t = T('pure', 'order', x, y)
            if x.op == 'c' and y.op == 'c':
                t = T('agg', 'core::cmp::Ordering', (x.args[1] > y.args[1]) - (x.args[1] < y.args[1]) + 1, ())
            return [(st, mk_some(t) if n == 'partial_cmp' else t)]
        if n == 'reverse' and len(args) == 1:
            return [(st, T('pure', 'reversed', args[0]))]
        if n == 'element_type' and len(args) == 1:
            v = I.deepval(st, args[0])
            if v.op == 'agg' and v.args[0] == BS:
                k = self.F.adts[BS]['v'][v.args[1]][0]
                et = [a for a in self.F.adts if a.rsplit('::', 1)[-1] == 'ElementType']
                for a in et:
                    for i, x in enumerate(self.F.adts[a]['v']):
                        if x[0] == {'Document': 'EmbeddedDocument'}.get(k, k):
                            return [(st, T('agg', a, i, ()))]
            return [(st, T('pure', 'type-of', v))]
        if n in ('eq', 'ne') and len(args) == 2:
            x, y = (I.deepval(st, a) for a in args)
            t = T('pure', 'equal', x, y)
            return [(st, mk_not(t) if n == 'ne' else t)]
        return EmitMon.call(self, I, st, fn, args, info)


def sides(t):
    return {p.args[0].split(':')[-1] for p in pars(t)}


def compare_table(ctx):
    F = ctx.F
    kinds = [v for v in F.adts[BS]['v']]
    fns = [b for b in F.core.bodies if b.promoted is None and b.argc == 2 and 'Result<std::cmp::Ordering' in ty_s(b, 0)
           and all(re.fullmatch(r"&('\w+ )?bson::(bson::)?Bson", ty_s(b, i)) for i in (1, 2))]
    same = {}
    for b in fns:
        types = {}
        for i, k1 in enumerate(kinds):
            for j, k2 in enumerate(kinds):
                ctx.count('type_pairs')
                x = T('agg', BS, i, tuple(T('par', 'l:x') for _ in k1[2]))
                y = T('agg', BS, j, tuple(T('par', 'l:y') for _ in k2[2]))
                mon = CmpMon(F)
                I = Interp(F, mon)
                st = St()
                st.mon = 0
                outs = I.run(b, [vref(x), vref(y)], st, I.ctx(None, 0, b))
                both = k1[0] in NUM and k2[0] in NUM
                for s, r in outs:
                    k = result_kind(r, s, I)
                    if k == 'err' and both:
                        ctx.viol('compare-fails:%s-%s' % (k1[0], k2[0]), '%s fails on %s and %s' % (b.np, k1[0], k2[0]))
                    if k != 'ok':
                        continue
                    o = I.deepval(s, r).args[2][0]
                    key = 'compare:%s-%s' % (k1[0], k2[0])
                    if o.op == 'agg':
                        # a constant answer: "equal" for values without content; an order of types for different types
                        if both or i == j and (k1[2] or o.args[1] != 1):
                            ctx.viol(key, '%s answers %s for every %s and %s' % (b.np, ('less', 'equal', 'greater')[o.args[1]], k1[0], k2[0]))
                        elif i != j:
                            types.setdefault((k1[0], k2[0]), set()).add(o.args[1] - 1)
                        continue
                    rev = False
                    while o.op == 'pure' and o.args[0] == 'reversed':
                        o, rev = o.args[1], not rev
                    if not (o.op == 'pure' and o.args[0] == 'order'):
                        ctx.viol(key, '%s answers %s for %s and %s, which is not a comparison of the two' % (b.np, show(o)[:80], k1[0], k2[0]))
                        continue
                    l, r_ = o.args[1], o.args[2]
                    if rev:
                        l, r_ = r_, l
                    if not (sides(l) == {'x'} and sides(r_) == {'y'}):
                        ctx.viol(key, '%s compares %s with %s for (%s, %s): not the first value with the second' % (b.np, show(l)[:50], show(r_)[:50], k1[0], k2[0]))
                    elif not both and i != j:
                        ctx.viol(key, '%s compares the contents of a %s and a %s' % (b.np, k1[0], k2[0]))
                    if both:
                        w = max(WIDTH[k1[0]], WIDTH[k2[0]])
                        for t, kk in ((l, k1[0]), (r_, k2[0])):
                            c = casts(t)
                            if len(c) > 1 or c and c[0] != ('i64', 'f64')[w - 1] or bool(c) != (WIDTH[kk] < w):
                                ctx.viol(key, '%s compares (%s, %s) after converting %s to %s' % (b.np, k1[0], k2[0], kk, '/'.join(c) or 'nothing'))
        order(ctx, b, types)
    ctx.floor('type_pairs', 400)


def order(ctx, b, types):
    """Between different types the answer is fixed, never "equal", and reversed when the operands are."""
    for (x, y), o in types.items():
        r = types.get((y, x), set())
        if len(o) != 1 or 0 in o or r != {-next(iter(o))}:
            ctx.viol('types:%s-%s' % (x, y), '%s answers %s for %s against %s and %s the other way round' % (b.np, sorted(o), x, y, sorted(r)))
            return


def casts(t):
    out = []
    while t.op in ('cast', 'ref', 'deref', 'agg', 'pure'):
        if t.op == 'cast':
            out.append(t.args[0])
            t = t.args[1]
        elif t.op == 'ref' and t.args[0].op == 'V':
            t = t.args[0].args[0]
        else:
            break
    return out


def equality_table(ctx):
    """The equality used by $in, $nin and $all: two numbers are compared by value whatever their types."""
    F = ctx.F
    roots = {b.id for b in F.core.bodies if b.promoted is None and b.argc == 2 and ty_s(b, 0) == 'bool'
             and all(re.fullmatch(r"&('\w+ )?bson::(bson::)?Bson", ty_s(b, i)) for i in (1, 2))}
    callers = callgraph(F).callers(roots)
    tops = [b for b in F.core.bodies if b.id in roots]
    if not tops:
        return
    kinds = {v[0]: i for i, v in enumerate(F.adts[BS]['v'])}
    # the entry: the one that is not only called by others of the family
    cg = callgraph(F)
    entry = [b for b in tops if any(x not in roots for x in cg.inn.get(b.id, ()))] or tops
    for b in entry:
        for k1 in NUM:
            for k2 in NUM:
                ctx.count('equality_pairs')
                x = T('agg', BS, kinds[k1], (T('par', 'l:x'),))
                y = T('agg', BS, kinds[k2], (T('par', 'l:y'),))
                mon = CmpMon(F)
                I = Interp(F, mon)
                st = St()
                st.mon = 0
                outs = I.run(b, [vref(x), vref(y)], st, I.ctx(None, 0, b))
                res = {I.known(s, r) for s, r in outs}
                if res and res <= {0}:
                    ctx.viol('equal:%s-%s' % (k1, k2), '%s says no %s equals any %s' % (b.np, k1, k2))
                if res and res <= {1}:
                    ctx.viol('equal:%s-%s' % (k1, k2), '%s says every %s equals every %s' % (b.np, k1, k2))


OPTIONS = {'i': 'case_insensitive', 'm': 'multi_line', 's': 'dot_matches_new_line', 'u': 'unicode', 'U': 'swap_greed', 'x': 'ignore_whitespace'}


class RegexMon(EmitMon):
    def __init__(self, F):
        EmitMon.__init__(self, F)
        self.seen = set()

    def call(self, I, st, fn, args, info):
        if 'RegexBuilder::' in (fn.get('p') or '') and fn['n'] not in ('new', 'build'):
            self.seen.add((fn['n'], args[1].args[1] if len(args) > 1 and args[1].op == 'c' else None))
            return [(st, args[0])]
        return EmitMon.call(self, I, st, fn, args, info)


def regex_options(ctx):
    """Each documented option letter switches on the option of that meaning, any other letter is an error."""
    F = ctx.F
    fns = [b for b in F.core.bodies if b.promoted is None and b.kind == 'Fn' and b.argc == 1 and re.search(r'&.*bson::Regex$|&.*raw::.*Regex$', ty_s(b, 1))
           and 'Result<' in ty_s(b, 0)]
    for b in fns:
        for o in list(OPTIONS) + ['q', 'l']:
            mon = RegexMon(F)
            I = Interp(F, mon)
            st = St()
            st.mon = 0
            outs = I.run(b, [vref(rx(F, 'p', o).args[2][0])], st, I.ctx(None, 0, b))
            ks = {result_kind(r, s, I) for s, r in outs}
            ctx.count('regex_options')
            if o in OPTIONS and mon.seen != {(OPTIONS[o], 1)}:
                ctx.viol('regex-option:' + o, '%s: option %r sets %s' % (b.np, o, sorted(mon.seen)))
            if o not in OPTIONS and ks - {'err'}:
                ctx.viol('regex-option:' + o, '%s accepts the unknown option %r' % (b.np, o))
