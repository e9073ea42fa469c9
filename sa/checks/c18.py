"""C18: conditions combine as documented: for every way of combining conditions, top-level lists, $and and $or up to a size,
the program the code generator emits selects a candidate exactly when the formula holds, decided for every outcome of the
single comparisons by abstract execution of the source's own interpreter on the emitted program."""
import itertools
from query import *


def shapes(atoms, depth):
    """All query documents over the atoms in this order (each used once)."""
    for part in partitions(atoms):
        for conds in itertools.product(*[list(conditions(x, depth)) for x in part]):
            yield q(*conds)


def partitions(xs):
    """Ways of cutting a list into consecutive non-empty parts."""
    if not xs:
        yield []
        return
    for i in range(1, len(xs) + 1):
        for r in partitions(xs[i:]):
            yield [xs[:i]] + r


def conditions(xs, depth):
    if len(xs) == 1:
        yield xs[0]
    if depth > 0:
        for part in partitions(xs):
            for docs in itertools.product(*[list(shapes(x, depth - 1)) for x in part]):
                yield AND(*docs)
                yield OR(*docs)


def atoms(n, style):
    names = 'abcdef'[:n]
    out = []
    for i, f in enumerate(names):
        v = scalar('v' + f)
        k = (i + style) % 3
        out.append((f, v) if k == 0 else (f, ops(('$gt', v))) if k == 1 else (f, ops(('$in', ('arr', (bson('ObjectId', T('par', 'v:o' + f)),))))))
    return names, out


def duplicate_keys(ast):
    k, v = ast
    if k == 'doc':
        ks = [x[0] for x in v]
        if len(set(ks)) < len(ks):
            return True
        return any(duplicate_keys(c) for _, c in v if not isinstance(c, Term) and c[0] == 'list')
    return any(duplicate_keys(d) for d in v)


def AND_(x):
    return q(AND(q(x)))


def with_empty(ast):
    """The query with one empty document more, in every place of every list."""
    k, v = ast
    for i, x in enumerate(v):
        if k == 'doc' and not isinstance(x[1], Term) and x[1][0] == 'list':
            for y in with_empty(x[1]):
                yield (k, v[:i] + ((x[0], y),) + v[i + 1:])
        elif k == 'list':
            for y in with_empty(x):
                yield (k, v[:i] + (y,) + v[i + 1:])
    if k == 'list':
        for i in range(len(v) + 1):
            yield (k, v[:i] + (q(),) + v[i:])


def special():
    """Combinations outside the generated family."""
    a, b, c = (scalar('v' + x) for x in 'abc')
    e = q()
    yield 'ab', q(AND(e), ('a', a))
    yield 'ab', q(OR(e, q(('a', a))), ('b', b))
    yield 'ab', q(OR(q(('a', a)), e), ('b', b))
    yield 'ab', q(OR(q(('a', a)), e))
    yield 'ab', q(('a', a), AND(e))
    yield 'ab', q(('a', a), OR(e))
    yield 'ab', q(OR(), ('a', a))
    yield 'ab', q(('a', a), OR())
    yield 'ab', q(AND(), ('a', a))
    yield 'ab', q(AND())
    yield 'ab', q(OR())
    yield 'ab', q()
    yield 'ab', q(('a', ops(('$gt', a), ('$lt', b))), ('b', c))
    yield 'ab', q(OR(q(('a', ops(('$gt', a), ('$lt', b))), ('b', c)), q(('b', b))))
    yield 'a', q(('a', ops(('$not', ops(('$gt', a), ('$lt', b))))))
    yield 'ab', q(('a', ops(('$not', ops(('$gt', a), ('$lt', b))))), ('b', c))
    yield 'ab', q(OR(q(('a', ops(('$not', ops(('$gt', a), ('$lt', b)))))), q(('b', c))))
    yield 'ab', q(OR(q(('b', c)), q(('a', ops(('$not', ops(('$gt', a), ('$lt', b))))))))
    yield 'a', q(('a', ops(('$not', ops(('$not', ops(('$gt', a), ('$lt', b))))))))
    yield 'ab', q(('a', ops(('$gt', a), ('$not', ops(('$lt', b), ('$ne', c))))), ('b', c))


def jobs(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for style in range(3 if n < 3 else 1):
            names, at = atoms(n, style)
            for s in shapes(at, 2 if n < 4 else 1):
                if not duplicate_keys(s):
                    out.append((names, s, (), 1))
    for names, s in special():
        out.append((names, s, (), 1))
        for m in names:
            out.append((names, s, (m,), 1))
    names, at = atoms(2, 0)
    for s in shapes(at, 1):
        if not duplicate_keys(s):
            out += [(names, x, (), 1) for x in with_empty(s)]
    for n in (4, 5):
        names, at = atoms(n, 2)
        for s in (q(*at), q(AND(*[q(x) for x in at])), q(OR(*[q(x) for x in at])), q(AND(q(*at))), q(OR(q(*at))), q(at[0], OR(*[q(x) for x in at[1:]])),
                  q(OR(*[q(x) for x in at[1:]]), at[0]), q(OR(*[AND_(x) for x in at]))):
            out.append((names, s, (), 1))
    names, at = atoms(3, 1)
    for s in shapes(at, 1):
        if not duplicate_keys(s):
            for m in names:
                out.append((names, s, (m,), 1))
    names, at = atoms(2, 0)
    for s in shapes(at, 1):
        if not duplicate_keys(s):
            out.append((names, s, (), 2))
    return out


def oid(f, i):
    return bson('ObjectId', T('par', '%s%d' % (f, i)))


def run_job(F, job):
    names, s, missing, n = job
    t = Trial(F, s, names, missing, n=n, val=oid, ends=n > 1)
    probs = t.judge() if t.programs else []
    return {'query': text(s), 'missing': missing, 'probs': [(k, d, c, story(es)) for k, d, c, es in probs], 'judged': getattr(t, 'judged', 0),
            'paths': len(t.paths), 'programs': len(t.programs), 'rejected': len(t.rejected), 'steps': t.steps, 'fetches': t.fetches,
            'ops': sorted(t.ops), 'panics': len(t.emit_panics)}


def check(ctx):
    F = ctx.F
    setup(F)
    js = jobs(ctx.tier)
    ctx.rule('for every query built from single conditions by top-level lists, $and and $or (every arrangement of up to %d conditions, nested '
             'up to two deep, in every order of the list; empty lists; several operators on a field; negated lists), the emitted program, '
             'executed abstractly by VM::execute, selects a candidate iff the formula over the outcomes of its comparisons holds, for every '
             'outcome, and a rejected candidate does not end the search' % (3 if ctx.tier == 'quick' else 4))
    for j, r in zip(js, parallel(F, run_job, js)):
        ctx.count('queries')
        ctx.count('paths', r['paths'])
        ctx.count('verdicts', r['judged'])
        ctx.count('instructions_executed', r['fetches'])
        if not r['programs']:
            ctx.viol('rejected:' + shape_of(j[1]), 'the query %s is not compiled' % r['query'])
        for k, d, c, sto in r['probs'][:1]:
            ctx.viol('%s:%s' % (k, shape_of(j[1])), 'query %s%s: a candidate %s [%s]' % (
                r['query'], ' with no ' + ', '.join(j[2]) if j[2] else '', d, sto))
        ctx.sample('%s: %d verdicts' % (r['query'], r['judged']))
    ctx.floor('queries', 100)
    ctx.floor('verdicts', 1000)


def shape_of(s):
    return re.sub(r'[^A-Za-z0-9$\[\]{}:,]', '', text(s))
