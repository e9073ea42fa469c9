"""C21: a finished or failed cursor stays finished."""

from cursors import *
from checks import c16


def methods(F):
    adv = [b for b in inherent(F, 'ClientCursor') if b.argc == 1 and re.match(r'(std|core)::result::Result<bool,', ty_s(b, 0)) and ty_s(b, 1).startswith('&') and 'mut ' in ty_s(b, 1)]
    nxt = [b for b in impl_methods(F, 'Iterator', 'ClientCursor') if b.name == 'next']
    if len(adv) != 1 or len(nxt) != 1:
        raise Missing('the methods that advance a client cursor (found %d and %d)' % (len(adv), len(nxt)))
    return adv[0], nxt[0]


def jobs(tier):
    out = []
    qs, ps = c16.queries(), c16.pipelines()
    for k in range(len(qs)):
        if k in (0, 1, 2, 3, 8) or tier == 'thorough':
            for ixs in ((), (('ia', 'a'),)):
                if ixs and k not in (1, 3, 5) and tier != 'thorough':
                    continue
                for m in (0, 1):
                    out.append(('query', k, ixs, m))
    for k in range(len(ps)):
        if k < 8 or tier == 'thorough' or ps[k] == ('$match', '$sort', '$group'):
            for m in (0, 1):
                out.append(('aggregate', k, (), m))
    return out


def one_job(F, j):

    kind, k, ixs, m = j
    method = methods(F)[m]
    pat = r'.*SubProgram::compile_' + kind
    b = one(F, pat)
    s = c16.stages()
    pipeline = [doc((n, s[n])) for n in c16.pipelines()[k]] if kind == 'aggregate' else None
    ast = c16.queries()[k][1] if kind == 'query' else None
    args = compile_args(F, b, spec_of(F, ixs), doc_term(ast) if ast is not None else None, 1, None, pipeline)
    cands, maps = candidates(('a', 'b', 'c'), (), 2)
    fact = scalars((list(all_pars(ast)) if ast is not None else []) + sorted(pars(*cands), key=str))
    emit, mon, outs = compile_program(F, pat, args, [fact])
    what = '%s %s, driven by %s' % (kind, ' '.join(c16.pipelines()[k]) if kind == 'aggregate' else c16.queries()[k][0], method.name)
    bad, stat, steps = [], {}, emit.steps
    for st0, r, p in outs:
        if r != 'ok':
            continue
        I, mon, done = drive(F, p, cands, method, pins=(pipeline or []), facts=[fact], max_cands=1 if kind == 'aggregate' else 2, max_ends=1)
        steps += I.steps
        for ev, calls, s2, why in done:
            if why in ('more', 'rows'):
                stat['cut'] = stat.get('cut', 0) + 1
            odd = [c[0] for c in calls if c[0].startswith('?')]
            if odd:
                bad.append(('outcome', '%s: an answer is not known: %s' % (what, odd[0]), I.trace(s2)))
                continue
            f = next((i for i, e in enumerate(ev) if e[0] == 'fail'), None)
            end = next((i for i, c in enumerate(calls) if c[0] != 'row'), None)
            if f is not None:
                # the call in which the execution failed answers with the error
                at = next((c for c in calls if c[1] <= f < c[2]), None)
                if at is None and why in ('more', 'rows'):
                    bad.append(('goes-on', '%s goes on after %s failed' % (what, ev[f][1]), I.trace(s2)))
                elif at is not None and at[0] != 'err':
                    bad.append(('not-reported', '%s answers %s although %s failed' % (what, at[0], ev[f][1]), I.trace(s2)))
            if end is None:
                continue
            stat[calls[end][0]] = stat.get(calls[end][0], 0) + 1
            later = calls[end + 1:]
            if any(c[1] != c[2] for c in later) or why not in ('done', 'more', 'rows') or why != 'done' and len(ev) > calls[-1][2]:
                bad.append(('again', '%s: after %s, another call executes part of the operation again' % (what, {'end': 'the end', 'err': 'an error'}[calls[end][0]]), I.trace(s2)))
            elif any(c[0] == 'row' for c in later):
                bad.append(('row', '%s: after %s, another call delivers a row' % (what, {'end': 'the end', 'err': 'an error'}[calls[end][0]]), I.trace(s2)))
            elif m == 1 and any(c[0] != 'end' for c in later):
                bad.append(('endless', '%s: after %s, iteration does not terminate' % (what, {'end': 'the end', 'err': 'an error'}[calls[end][0]]), I.trace(s2)))
        for w, *_ in mon.panics:
            bad.append(('panic', '%s can panic: %s' % (what, w), []))
    return bad[:20], stat, steps


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('The programs the compilers emit for queries and pipelines are executed abstractly through the cursor the library builds around them, by calling '
             'ClientCursor::advance or Iterator::next until they end, and then twice more, with every storage call, comparison, stage, key encoding and '
             'decoding failing once on some path. The call in which something failed answers with an error; after an end or an error no further call '
             'executes any part of the program (reads, fetches a candidate, feeds a stage), delivers a row, or - for the iterator - answers anything but None.')
    js = jobs(ctx.tier)
    tot = {}
    for j, (bad, stat, steps) in zip(js, parallel(F, one_job, js, chunk=1)):
        ctx.count('programs_driven')
        ctx.count('blocks_interpreted', steps)
        for k, n in stat.items():
            tot[k] = tot.get(k, 0) + n
        for kind, msg, tr in bad:
            ctx.viol('%s:%s' % (kind, j[0]), msg, tr)
    for k, n in tot.items():
        ctx.count({'end': 'cursors_ended', 'err': 'cursors_failed', 'cut': 'cut_short'}[k], n)
    ctx.floor('programs_driven', 20)
    ctx.floor('cursors_ended', 40)
    ctx.floor('cursors_failed', 40)
