"""C05: internal errors are propagated, not dropped or turned into panics."""
import re
from txnmon import *
from query import parallel
from checks.c04 import reports

COMBINATORS = re.compile(r'^(core|std)::(result|option|ops|iter|convert|clone)::|^(core|std)::.*::(branch|from_residual|from_output)$')


def internal(crate, ty):
    """Is a type Result<_, E> with E an error of the library or of the document codec?"""
    t = crate.types[ty]
    if t.get('adt') != RESULT or len(t.get('a', ())) < 2:
        return False
    e = crate.types[t['a'][1]]
    s = re.sub(r"^&('\w+ )?", '', e['s'])
    return bool(re.match(r'(polodb_core::)?(errors::)?(crate::)?(errors::Error|Error)$', s) or s.startswith('bson::') and 'Error' in s) or (e.get('adt') or '').startswith('polodb_core::')


class ErrMon(Monitor):
    """State: the calls that have failed on this path."""
    exit_limit = 12
    join_limit = 16
    weight_limit = 100
    depth_limit = 4

    def __init__(self, F):
        self.F = F
        self.sources = {}
        self.panics = {}

    def inline(self, I, b, depth):
        if b.crate is self.F.core and internal(b.crate, b.locals[0]):
            return False
        return None

    def call(self, I, st, fn, args, info):
        n, p = fn.get('n') or '', fn.get('p') or ''
        if info.body.crate is not self.F.core or info.destty is None or not internal(info.body.crate, info.destty):
            return None
        if COMBINATORS.search(p) and n != 'collect' or n in ('call', 'call_once', 'call_mut', 'Err', 'Ok'):
            return None
        b = I.resolve(st, fn, args)
        if b is not None and b.crate is self.F.core and st.mon[1]:
            es = {e for _, e in st.mon[1]}
            if any(mentions(I.deepval(st, a, 6), es) for a in args):
                return I.enter(b, args, st, info)           # a helper that is given the error
        self.sources[n] = self.sources.get(n, 0) + 1
        e = T('call', n + '/error', info.sid, 0)
        bad, good = st.copy(), st.copy()
        bad.mon = (0, tuple(sorted(set(bad.mon[1]) | {(n, e)}, key=str)))
        return [(good, mk_ok(T('call', n, info.sid, 0, *args))), (bad, mk_err(e))]

    def on_panic(self, I, st, fn, args, info):
        for n, e in st.mon[1][:1]:
            self.panics.setdefault(n, I.trace(st))


def mentions(t, es, d=0):
    if d > 12:
        return False
    if isinstance(t, tuple):
        return any(mentions(x, es, d + 1) for x in t)
    return isinstance(t, Term) and (t in es or any(mentions(x, es, d + 1) for x in t.args))


def functions(F):
    out = []
    for b in F.core.bodies:
        if b.promoted is not None or b.kind not in ('Fn', 'AssocFn', 'Closure') or '::tests::' in b.np or (b.name or '').startswith('test_') or (b.trait or '').startswith(('core::fmt', 'std::fmt')):
            continue
        # a comparison for sorting has to answer; values without an order are equal to it
        if re.fullmatch(r'(std|core)::cmp::Ordering', ty_s(b, 0)):
            continue
        if any(internal(b.crate, blk['t'][8]) for blk in b.blocks if blk['t'][0] == 'call' and len(blk['t']) > 8 and blk['t'][8] is not None):
            out.append(b)
    return out


def one_function(F, b):
    mon = ErrMon(F)
    I, outs = run_entry(F, b, mon, (), 400000)
    adt = adt_named(F, 'Error')
    idx = [v[1] if isinstance(v[1], int) else i for i, v in enumerate(F.adts[adt]['v']) if v[0] == 'CollectionNotFound']
    if len(idx) != 1:
        raise Missing('the error for a missing collection')
    bad, nf, absent = {}, 0, 0
    for s, r in outs:
        p = s.mon[1]
        nf += bool(p)
        if not p or reports(I.deepval(s, r, 4), s, I):
            continue
        for n, e in p:
            f = s.facts.get(mk_disc(e))
            if f is not None and f == ('=', idx[0]):
                absent += 1             # the missing collection is an answer, not a failure
                continue
            bad.setdefault(n, I.trace(s))
    return I.steps, len(outs), nf, mon.sources, bad, mon.panics, absent


def check(ctx):
    F = ctx.F
    ctx.rule('Every function and closure of the library that calls something returning a Result with an error of the library or of the document codec is '
             'interpreted with each such call both succeeding and failing (callees are judged on their own; helpers given the error are followed): on a '
             'path with a failure the function returns an error and does not panic. Two answers are no failures: that a collection does not exist, where the '
             'path has told that error apart from all others, and that two values have no order, in functions that answer with an Ordering.')
    todo = functions(F)
    src = {}
    for b, (steps, n, nf, sources, bad, panics, absent) in zip(todo, parallel(F, one_function, todo)):
        ctx.count('functions')
        ctx.count('call_sites', len(sources))
        ctx.count('exit_states', n)
        ctx.count('failing_exit_states', nf)
        ctx.count('missing_collection_answers', absent)
        ctx.count('blocks_interpreted', steps)
        for x in sources:
            src[x] = src.get(x, 0) + 1
        for x, tr in bad.items():
            ctx.viol('%s:%s' % (b.np, x), '%s can return without an error although %s failed' % (b.np, x), tr)
        for x, tr in panics.items():
            ctx.viol('%s:panic:%s' % (b.np, x), '%s can panic because %s failed' % (b.np, x), tr)
    for x in sorted(src):
        ctx.sample('%s fails in %d functions' % (x, src[x]))
    ctx.floor('functions', 100)
    ctx.floor('failing_exit_states', 150)
