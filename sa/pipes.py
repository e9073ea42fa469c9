"""Pipelines, end to end: the program the source generates for a pipeline is run by the source's own machine with the source's
own stages, on a known number of documents with known field names and unknown values."""
from query import *
from models import doc_items, some

ATOMIC = ('load', 'store', 'fetch_add', 'fetch_sub', 'swap', 'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and')


DBG=False


class PipeMon(MachineMon):
    """As the machine's monitor, with the stages executed instead of assumed."""
    unroll = True
    endless = False
    prefix_holds = True          # the iterator is positioned by a seek to the prefix; its end is decided by 'valid'

    def call(self, I, st, fn, args, info):
        if DBG: print(fn.get('n'), fn.get('p'), [show(I.deepval(st,a,4))[:100] for a in args], flush=True)
        n, p = fn.get('n') or '', fn.get('p') or ''
        if n in ATOMIC and 'tomic' in p:
            return self.atomic(I, st, n, p, args, info)
        if n == 'new' and 'tomic' in p and len(args) == 1:
            return [(st, T('agg', 'cell', 0, (args[0],)))]
        if n in ('sort_by', 'sort_unstable_by', 'sort_by_key', 'sort') and len(args) >= 1:
            r = self.sort(I, st, n, args, info)
            if r is not None:
                return r
        return MachineMon.call(self, I, st, fn, args, info)

    def model(self, I, st, fn, args, info):
        if fn.get('n') == 'starts_with' and len(args) == 2 and self.prefix_holds:
            return [(st, I_(1))]
        if (fn.get('tr') or '').endswith('VmExternalFunc') and fn.get('n') != 'name':
            return self.feed(I, st, fn, args, info)
        return MachineMon.model(self, I, st, fn, args, info)

    def known(self, st, kind, a, b):
        for e in self.ev(st):
            if e[0] == kind and kind in ('cmp', 'eq'):
                if e[1] is a and e[2] is b:
                    return e[3]
                if e[1] is b and e[2] is a:
                    return -e[3] if kind == 'cmp' else e[3]
        return MachineMon.known(self, st, kind, a, b)

    def feed(self, I, st, fn, args, info):
        if fn.get('n') == 'call':
            st = st.copy()
            a = I.deepval(st, args[1], 12)
            if a.op == 'agg' and a.args[2]:
                a = a.args[2][-1]
            self.push(st, 'feed', I.deepval(st, args[0], 3), a)
            if self.endless or sum(1 for e in self.ev(st) if e[0] == 'feed') > 30:
                self.endless = True
                self.push(st, 'bad', 'a stage is fed without end')
                return self.stop(st, 'bad')
            b = I.resolve(st, fn, args)
            if b is None:
                raise Missing('the stage a pipeline calls: %s' % show(I.read(st, args[0]))[:300])
            return I.enter(b, args, st, info)
        return None

    def atomic(self, I, st, n, p, args, info):
        r, q = I.deref_loc(args[0])
        q = tuple(q) + (('f', None, 0),)
        v = I.load(st, r, q)
        if n == 'load':
            return [(st, v)]
        st = st.copy()
        x = args[1]
        if n in ('store', 'swap'):
            w = x
        elif v.op == 'c' and x.op == 'c':
            f = {'fetch_add': lambda a, b: a + b, 'fetch_sub': lambda a, b: a - b, 'fetch_max': max, 'fetch_min': min,
                 'fetch_or': lambda a, b: a | b, 'fetch_and': lambda a, b: a & b}[n]
            w = I_(f(v.args[1], x.args[1]))
            if w.args[1] < 0:
                self.push(st, 'bad', 'a counter of the stage is decremented below zero')
                return self.stop(st, 'bad')
        else:
            w = T('bin', n, v, x)
        I.store(st, r, q, w)
        return [(st, UNIT if n == 'store' else v)]

    def sort(self, I, st, n, args, info):
        """Stable insertion sort with the source's comparison, on a list of known length."""
        r, p = I.deref_loc(args[0])
        v = I.load(st, r, p)
        if v.op != 'agg' or v.args[0] not in ('vec', 'array') or n not in ('sort_by', 'sort_unstable_by'):
            return None
        items = v.args[2]
        states = [(st.copy(), ())]
        for k, x in enumerate(items):
            # insert x: compare with the sorted ones from the right while x is smaller
            work = [(s, lst, len(lst)) for s, lst in states]
            states = []
            while work:
                s, lst, at = work.pop()
                if at == 0:
                    states.append((s, (x,) + lst))
                    continue
                for s2, o in I.call_value(s, args[1], [vref(x), vref(lst[at - 1])], info):
                    if o is DIVERGE:
                        continue
                    o = I.deepval(s2, o)
                    if o.op != 'agg':
                        raise Missing('the outcome of the sort comparison: %s' % show(o)[:80])
                    s2 = s2.copy()
                    self.push(s2, 'order', x, lst[at - 1], o.args[1] - 1)
                    if o.args[1] == 0:
                        work.append((s2, lst, at - 1))
                    else:
                        states.append((s2, lst[:at] + (x,) + lst[at:]))
        out = []
        for s, lst in states:
            I.store(s, r, p, T('agg', 'vec', 0, lst))
            self.push(s, 'sorted', n)
            out.append((s, UNIT))
        return out


def run_pipe(F, pipeline, n, fields=('a', 'b'), missing=(), val=None, indexes=(), facts=(), cls=PipeMon, cands=None):
    """[(candidates, rows, why, events, state, I)] over all executions of the pipeline on up to n documents; and what refused it."""
    cands, maps = cands or candidates(fields, missing, n, val)
    b = one(F, r'.*SubProgram::compile_aggregate')
    args = compile_args(F, b, spec_of(F, indexes), None, 1, None, [doc(x) for x in pipeline])
    fact = scalars(sorted(pars(*cands) | pars(*[x[1] for x in pipeline]), key=str))
    emit, mon, outs = run_emit(F, b, args, [fact] + list(facts))
    rej, progs = [], []
    for s, r in outs:
        if result_kind(r, s, emit) == 'ok':
            progs.append(boxed(F, emit, s, r.args[2][0]) + ({k: f for k, f in s.facts.items() if pars(k)},))   # what the compiler tested of the constants
        else:
            rej.append(emit.deepval(s, r, 14))
    res, steps = [], emit.steps
    panics = list(mon.panics)
    for p, mem, known in progs:
        I, m, done, root = run_machine(F, p, cands, cls, facts=[fact, lambda I, st, mem=mem: st.mem.update(mem), lambda I, st, known=known: st.facts.update(known)] + list(facts), rows=99, max_cands=n, max_ends=99, pins=[x[1] for x in pipeline])
        steps += I.steps
        panics += m.panics
        for ev, why, st in done:
            res.append((sum(1 for e in ev if e[0] == 'cand'), [e[1] for e in ev if e[0] == 'row'], why, ev, st, I))
    return cands, maps, res, rej, panics, steps


def boxed(F, I, st, program):
    """The program with its stages still in boxes, and the memory of those boxes."""
    mem = {}

    def keep(v, d=0):
        if v.op == 'ref' and v.args[0].op == 'H' and not v.args[1]:
            if v.args[0].args[0] == 'keep':
                return v
            r = T('H', 'keep', len(mem), 'box')
            mem[r] = None
            mem[r] = keep(I.load(st, v.args[0]), d + 1)
            return T('ref', r, ())
        if v.op == 'ref':
            return keep(I.read(st, v), d + 1) if d < 30 else v
        if any(isinstance(x, Term) or isinstance(x, tuple) for x in v.args) and v.op != 'ref':
            return T(v.op, *(tuple(keep(y, d + 1) for y in x) if isinstance(x, tuple) and all(isinstance(y, Term) for y in x) else
                             keep(x, d + 1) if isinstance(x, Term) else x for x in v.args))
        return v
    adt = adt_named(F, 'SubProgram')
    fields = []
    for i, f in enumerate(F.adts[adt]['v'][0][2]):
        x = program.args[2][i]
        fields.append(keep(x) if f[0] == 'external_funcs' else I.deepval(st, x, 14))
    return T('agg', program.args[0], program.args[1], tuple(fields)), mem
