"""C27: single-document operations touch at most one document; upsert only on no match."""
from writes import *
from glue import *


def jobs(tier):
    out = []
    for kind in ('update', 'delete'):
        for many in (0, 1):
            for qn in ('all', 'a', 'gt', 'or', 'in'):
                out.append((kind, qn, many, 2 if qn != 'in' else 1, 'none', 1, (), qn in ('a', 'all'), False))
            out.append((kind, 'id', many, 1, 'none', 1, (), True, False))
            out.append((kind, 'id+a', many, 1, 'a', 1, (), True, False))
            out.append((kind, 'a', many, 2, 'a', 1, (), True, False))
            out.append((kind, 'or', many, 2, 'ab', 1, (), False, False))
            out.append((kind, 'all', many, 3, 'none', 1, (), False, False))
    out.append(('delete_all', '', 1, 3, 'none', 0, (), True, False))
    out.append(('delete_all', '', 1, 2, 'ab', 0, (), False, False))
    if tier == 'thorough':
        out += [(kind, qn, many, 3 if qn in ('all', 'a', 'gt') else 2, w, 1, (), e, False) for kind in ('update', 'delete') for many in (0, 1)
                for qn in ('all', 'a', 'id', 'id+a', 'gt', 'or', 'in') for w in ('none', 'a', 'ab') for e in (False, True)]
    return out


def updates():
    f = lambda op: (op, bson('Document', doc(('x', T('par', 'X')))))
    return [('$set', doc(f('$set')), True), ('$inc', doc(f('$inc')), False), ('$set and $inc', doc(f('$set'), f('$inc')), True),
            ('$inc and $set', doc(f('$inc'), f('$set')), True)]


def cases(F, tier):
    """[(class, method, option index or None, update index or None)]"""
    out = []
    for cls, b in methods(F):
        n = b.name
        if n.startswith('update'):
            for o in range(3) if 'with_options' in n else (None,):
                out += [(cls, n, o, u) for u in range(len(updates()))]
        elif n.startswith('delete'):
            out.append((cls, n, None, None))
    return out


def method_case(F, j):
    cls, name, o, u = j
    b = next(x for c, x in methods(F) if c == cls and x.name == name)
    opt = option_values(F)[o] if o is not None else (None, None)
    up = updates()[u] if u is not None else (None, None, False)
    m = Method(F, b, opt[1], up[1])
    kind = 'update' if name.startswith('update') else 'delete'
    js = m.judge(kind, int('many' in name), opt[0] == 'upsert: true', up[2])
    what = '%s::%s%s%s' % (cls, name, ', ' + opt[0] if opt[0] else '', ', update with %s' % up[0] if up[0] else '')
    ran = sum(bool(x[3]) for x in m.oks)
    return {'what': what, 'paths': len(m.oks), 'ran': ran, 'inserted': sum(x[5] == 1 for x in m.oks),
            'bad': [(p, k, d, [t] if isinstance(t, str) else list(map(str, t))[-10:]) for p, k, d, t in js]}


def run_cases(ctx, prop, cs):
    for j, r in zip(cs, parallel(ctx.F, method_case, cs)):
        seen = set()
        for p, k, d, tr in r['bad']:
            if p == prop and (k, d) not in seen:
                seen.add((k, d))
                ctx.viol('%s:%s::%s' % (k, j[0], j[1]) if k != 'upsert-without-set' else k, '%s: %s' % (r['what'], d), tr)
        ctx.count('method_cases')
        ctx.count('method_paths', r['paths'])
        ctx.count('method_paths_running_a_program', r['ran'])
        ctx.count('upserts_seen', r['inserted'])
        if not r['ran']:
            ctx.viol('never:%s::%s' % (j[0], j[1]), '%s runs no program on any successful path' % r['what'])
        ctx.sample('%s: %d successful paths' % (r['what'], r['paths']))


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('(1) The programs compiled for update_one/many, delete_one/many and delete-all are executed abstractly on up to three candidates '
             'with unknown values: a single-document program acts on the first match and on nothing after it, a many program on every match, '
             'never on a document that does not match. (2) Every update and delete method of both collection kinds, with every upsert option, '
             'is executed abstractly with the machine replaced by its contract: it compiles its program for one or many documents as its name '
             'says, from the query it was given, runs it at most once, and inserts exactly one document if upsert was asked for and the machine '
             'counted no match, and none otherwise.')
    js = jobs(ctx.tier)
    tot = run_jobs(ctx, 'C27', js)
    ctx.count('write_programs', len(js))
    ctx.count('paths', tot['paths'])
    ctx.count('candidates_judged', tot['judged'])
    ctx.count('documents_touched', tot['done'])
    cs = cases(F, ctx.tier)
    run_cases(ctx, 'C27', cs)
    ctx.floor('write_programs', 20)
    ctx.floor('candidates_judged', 100)
    ctx.floor('documents_touched', 40)
    ctx.floor('method_cases', 16)
    ctx.floor('upserts_seen', 2)
