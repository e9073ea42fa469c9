"""Queries of a given shape, what they mean, and what the compiled program does with a candidate."""
from vmrun import *


# ---------------------------------------------------------------- queries
# doc   := ('doc', ((key, cond), ...))           key: field name, '$and', '$or'
# cond  := V                                     plain equality
#        | ('ops', ((op, operand), ...))         operand: V, a tuple of Vs ($in ...), an int ($size), ('ops', ...) ($not)
#        | ('list', (doc, ...))                  for $and, $or
# V     := a term (a database value)

def q(*items):
    return ('doc', tuple(items))


def ops(*items):
    return ('ops', tuple(items))


def AND(*docs):
    return ('$and', ('list', docs))


def OR(*docs):
    return ('$or', ('list', docs))


def to_term(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, int):
        return bson('Int64', I_(x))
    k, v = x
    if k == 'doc' or k == 'ops':
        return bson('Document', doc(*[(n, to_term(c)) for n, c in v]))
    if k == 'list' or k == 'arr':
        return barr(*[to_term(c) for c in v])
    raise ValueError(x)


def doc_term(x):
    return to_term(x).args[2][0]


def text(x):
    if isinstance(x, Term):
        return x.args[0].split(':')[-1] if x.op == 'par' else show(x)
    if isinstance(x, int):
        return str(x)
    k, v = x
    if k in ('doc', 'ops'):
        return '{' + ', '.join('%s: %s' % (n, text(c)) for n, c in v) + '}'
    return '[' + ', '.join(text(c) for c in v) + ']'


# ---------------------------------------------------------------- meaning
def t_not(a):
    return None if a is None else not a


def t_and(xs):
    xs = list(xs)
    return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None


def t_or(xs):
    return t_not(t_and(t_not(x) for x in xs))


class Env:
    """What a path has found out about a candidate's fields."""

    def __init__(self, events, fields, I, st):
        self.cmp, self.eqs, self.mat = {}, {}, {}
        self.fields, self.I, self.st = fields, I, st
        self.free = False
        for e in events:
            if e[0] == 'cmp':
                self.cmp[(e[1], e[2])] = e[3]
                self.cmp[(e[2], e[1])] = -e[3]
            elif e[0] == 'eq':
                self.eqs[(e[1], e[2])] = self.eqs[(e[2], e[1])] = bool(e[3])
            elif e[0] == 'match':
                self.mat[(e[1], e[2])] = bool(e[3])

    def order(self, a, b):
        return self.cmp.get((a, b))

    def equal(self, a, b):
        if a is b:
            return True
        if a.op == 'agg' and b.op == 'agg' and a.args[1] != b.args[1]:
            return False
        r = self.eqs.get((a, b))
        if r is None and self.order(a, b) is not None:
            r = self.order(a, b) == 0
        return r

    def member(self, f, x):
        r = [self.equal(f, x)]
        if f.op == 'agg' and f.args[1] == bson_variant('Array') and f.args[2][0].op == 'agg':
            r += [self.equal(e, x) for e in f.args[2][0].args[2]]
        return t_or(r)

    def op(self, f, o, v):
        """Does the field value f (None: missing) satisfy operator o with operand v?"""
        if o == '$not':
            if f is None:
                self.free = True         # negation of a condition on a missing field: not part of the property
                return None
            return t_not(t_and(self.op(f, p, w) for p, w in v[1]))
        if o in ('$in', '$nin', '$all'):
            g = bson('Null') if f is None else f
            r = [self.member(g, x) for x in v[1]]
            r = t_or(r) if o != '$all' else t_and(r) if r else False
            return t_not(r) if o == '$nin' else r
        if o == '$ne' and f is None:
            self.free = True
            return None
        if f is None:
            return False
        if o == '$size':
            if f.op == 'agg' and f.args[1] == bson_variant('Array') and f.args[2][0].op == 'agg':
                return len(f.args[2][0].args[2]) == v
            return None
        if o == '$regex':
            return self.regex(f, v)
        c = self.order(f, v)
        if c is None:
            return None
        return {'$eq': c == 0, '$ne': c != 0, '$gt': c > 0, '$gte': c >= 0, '$lt': c < 0, '$lte': c <= 0}[o]

    def regex(self, f, v):
        for (a, b), r in self.mat.items():
            if f in pars_and_self(a, b) or any(x in pars_and_self(a, b) for x in pars(f)):
                return r
        return None

    def cond(self, k, c):
        if k == '$and':
            return t_and(self.doc(d) for d in c[1])
        if k == '$or':
            return t_or(self.doc(d) for d in c[1])
        f = self.fields.get(k)
        if isinstance(c, Term):
            return self.op(f, '$eq', c)
        return t_and(self.op(f, o, v) for o, v in c[1])

    def doc(self, d):
        return t_and(self.cond(k, c) for k, c in d[1])


def pars_and_self(*ts):
    return set(ts) | pars(*ts)


# ---------------------------------------------------------------- the collection
def spec_of(F, indexes=(), unique=False):
    """A collection specification; indexes: ((name, field), ...)."""
    opts = NONE
    if unique:
        io = adt_named(F, 'IndexOptions')
        opts = mk_some(T('agg', io, 0, tuple(mk_some(I_(1)) if f[0] == 'unique' else NONE if f[0] == 'name' else T('par', 'opt-' + f[0]) for f in F.adts[io]['v'][0][2])))
    a = adt_named(F, 'CollectionSpecification')
    fs = [f[0] for f in F.adts[a]['v'][0][2]]
    m = T('docempty')
    ii = adt_named(F, 'IndexInfo')
    names = [f[0] for f in F.adts[ii]['v'][0][2]]
    for n, field in indexes:
        keys = T('docins', T('docempty'), S_(field), I_(1))
        m = T('docins', m, S_(n), T('agg', ii, 0, tuple(keys if x == 'keys' else opts if x == 'options' else T('par', 'idx-' + x) for x in names)))
    return T('agg', a, 0, tuple(m if f == 'indexes' else S_('col') if f == '_id' else T('par', 'spec-' + f) for f in fs))


def candidates(fields, missing=(), n=2, val=None):
    """n candidates with their own values for the fields. Returns (documents as terms, field maps)."""
    docs, maps = [], []
    for i in range(n):
        mp = {'_id': T('par', 'id%d' % i)}
        for f in fields:
            if f not in missing and f != '_id':
                mp[f] = val(f, i) if val else T('par', '%s%d' % (f, i))
        docs.append(doc(*mp.items()))
        maps.append(mp)
    return docs, maps


def compile_args(F, b, spec, query, is_many=1, update=None, pipeline=None):
    """Arguments of a compile function, by type: the specification, the documents in order, flags."""
    docs = [query] + ([update] if update is not None else [])
    out = []
    for i in range(1, b.argc + 1):
        t = ty_s(b, i)
        if 'CollectionSpecification' in t:
            out.append(vref(spec))
        elif pipeline is not None and ('IntoIterator' in t or 'Vec<' in t):
            out.append(T('agg', 'vec', 0, tuple(pipeline)))
        elif pipeline is not None and t.startswith('&') and '[' in t:
            out.append(vref(T('agg', 'vec', 0, tuple(pipeline))))
        elif 'Document' in t and 'Option' in t:
            out.append(mk_some(vref(docs.pop(0))))
        elif 'Document' in t:
            out.append(vref(docs.pop(0)))
        elif t == 'bool':
            first = not any(ty_s(b, j) == 'bool' for j in range(1, i))
            out.append(I_(1 if first else is_many))
        elif 'str' in t:
            out.append(S_('col'))
        else:
            out.append(T('par', 'carg%d' % i))
    return out


class Verdict:
    __slots__ = ('k', 'matched', 'value', 'free', 'end', 'events', 'st', 'later')


def segments(ev):
    """Events per candidate: [(index of candidate, events up to the next candidate)] (before the first: -1)."""
    out = [[-1, []]]
    for e in ev:
        if e[0] == 'cand':
            out.append([e[1], []])
        else:
            out[-1][1].append(e)
    return out


class Problem(Exception):
    pass


def values_of(ast):
    """All database values a query mentions."""
    out = []
    def go(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x[1]:
                go(y[1] if x[0] in ('doc', 'ops') else y)
    go(ast)
    return out


def all_pars(x):
    return sorted(pars(*[v for v in values_of(x)]), key=str)


class Trial:
    """One query against one shape of candidate: compiled, executed, judged."""

    def __init__(self, F, ast, fields, missing=(), indexes=(), n=1, val=None, pat=r'.*SubProgram::compile_query', cls=MachineMon,
                 update=None, is_many=1, rows=3, extra_facts=(), cands=None, ends=True, pipeline=None, max_ends=2, unique=False):
        self.F, self.ast, self.n = F, ast, n
        if cands is None:
            cands = candidates(fields, missing, n, val)
        self.cands, self.maps = cands
        self.problems = []
        b = one(F, pat)
        self.spec = spec_of(F, indexes, unique)
        args = compile_args(F, b, self.spec, doc_term(ast) if ast is not None else None, is_many, update, pipeline)
        scal = (list(all_pars(ast)) if ast is not None else []) + sorted(pars(*self.cands), key=str)
        fact = scalars(scal)
        self.emit, mon, outs = compile_program(F, pat, args, [fact] + list(extra_facts))
        self.programs = [(s, p) for s, k, p in outs if k == 'ok']
        self.rejected = [p for s, k, p in outs if k != 'ok']
        self.emit_panics = mon.panics
        self.paths = []
        self.steps = self.emit.steps
        self.fetches = 0
        self.ops = set()
        for s, p in self.programs:
            I, m, done, root = run_machine(F, p, self.cands, cls, facts=[fact] + list(extra_facts), rows=rows, max_cands=n, storage_ends=ends, max_ends=max_ends)
            self.steps += I.steps
            self.fetches += m.fetches
            self.ops |= m.ops_seen
            self.panics = m.panics
            for ev, why, st in done:
                self.paths.append((I, p, ev, why, st, root))

    def env(self, segs, j, k, I, st):
        return Env([e for s in segs[:j + 1] for e in s[1]], self.maps[k], I, st)

    def judge(self, result=None):
        """[(problem kind, description, events)] over all paths; result(events, k, doc) says whether candidate k was selected."""
        out = []
        self.judged = 0
        self.took = self.left = 0
        for I, p, ev, why, st, root in self.paths:
            segs = segments(ev)
            for j, (k, es) in enumerate(segs):
                if k < 0:
                    continue
                last = j + 1 == len(segs)
                if why in ('bad', 'err') and last:
                    continue
                env = self.env(segs, j, k, I, st)
                want = env.doc(self.ast)
                got = result(es, k, self.cands[k]) if result else any(e[0] == 'row' and e[1] is bson('Document', self.cands[k]) for e in es)
                wrong = [e for e in es if e[0] == 'row' and e[1] is not bson('Document', self.cands[k])]
                self.judged += 1
                self.took += bool(got)
                self.left += not got
                if wrong:
                    out.append(('value', 'reports a result that is not the candidate: %s' % show(wrong[0][1])[:80], k, es))
                if want is None and env.free:
                    continue
                if want is None:
                    out.append(('undecided', 'is %s although the tests made do not decide the query' % ('selected' if got else 'rejected'), k, es))
                elif want and not got:
                    out.append(('missed', 'is rejected although it matches', k, es))
                elif got and not want:
                    out.append(('wrong', 'is selected although it does not match', k, es))
                # a rejected candidate must not end the search
                if not got and last and why in ('halt', 'rows') and not any(e[0] == 'ffi' and e[1] in (NEXT, VALID, SEEK) for e in es):
                    out.append(('ends', 'is rejected and ends the search', k, es))
            if why in ('bad', 'err') or why.startswith('state'):
                e = ev[-1] if ev else ('', why)
                out.append(('fails', 'the execution fails: %s' % ' '.join(show(x)[:100] if isinstance(x, Term) else str(x) for x in e), -1, ev))
        return out


def story(es):
    """Readable tests of a path."""
    out = []
    for e in es:
        if e[0] == 'cmp':
            out.append('%s %s %s' % (text(e[1]) if e[1].op == 'par' else show(e[1])[:40], {-1: '<', 0: '==', 1: '>'}[e[3]], text(e[2]) if e[2].op == 'par' else show(e[2])[:40]))
        elif e[0] in ('eq', 'match'):
            out.append('%s(%s, %s) = %s' % (e[0], show(e[1])[:40], show(e[2])[:40], bool(e[3])))
        elif e[0] in ('row', 'cand', 'bad', 'error'):
            out.append(e[0])
    return '; '.join(out)


def _worker(i):
    return _JOB[1](_JOB[0], _JOB[2][i])


_JOB = None


def parallel(F, f, jobs, procs=8, chunk=4):
    """f(F, job) for every job, in forked processes (terms are interned per process, so jobs travel by index)."""
    global _JOB
    _JOB = (F, f, jobs)
    import multiprocessing
    import sys
    if len(jobs) < 3:
        return [f(F, j) for j in jobs]
    f(F, jobs[0])               # fills the caches the workers inherit
    sys.setrecursionlimit(100000)
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        return pool.map(_worker, range(len(jobs)), chunksize=chunk)
