"""Client cursors, driven through their own methods: the cursor the library builds around a machine, advanced until it ends and
then some more."""
from fails import *
from vmrun import MachineMon, machine, top_of_stack, scalars
from emit import setup, bson, doc
from query import *
import query


class CursorMon(Failing, MachineMon):
    """The machine; storage failures and failures of comparisons, stages, operators and decoding are events ('fail', what)."""
    storage_ends = True
    inner_errors = True

    def __init__(self, *a):
        MachineMon.__init__(self, *a)
        self.seen_ffi = set()

    def call(self, I, st, fn, args, info):
        n, p = fn.get('n') or '', fn.get('p') or ''
        if n == 'from_bson' and len(args) == 1:
            return [(st, mk_ok(T('pure', 'deserialised', I.deepval(st, args[0]))))]
        if n == 'to_str' and 'CStr' in p:
            return [(st, mk_ok(T('pure', 'text', I.deepval(st, args[0]))))]
        if I.resolve(st, fn, args) is self.exec_body:
            return I.enter(self.exec_body, args, st, info)
        return MachineMon.call(self, I, st, fn, args, info)

    def failure(self, st):
        return next((e[1] for e in reversed(self.ev(st)) if e[0] == 'fail'), None)

    def position(self, st, h):
        return next((e[2] for e in reversed(self.ev(st)) if e[0] == 'pos' and e[1] is h), None)

    def fail(self, I, st, name, info):
        self.push(st, 'fail', name)

    def moved(self, st, h, f):
        self.push(st, 'pos', h, f)

    def inner(self, what, st, outs):
        """The call can also report an error."""
        if outs is None or not self.inner_errors or self.failure(st) is not None:
            return outs
        s = st.copy()
        self.push(s, 'fail', what)
        return list(outs) + [(s, mk_err(T('call', what + '/error', 0, 0)))]

    def compare(self, I, st, args, info):
        r = MachineMon.compare(self, I, st, args, info)
        return self.inner('a comparison', st, r)

    def stage(self, I, st, n, args, info):
        r = MachineMon.stage(self, I, st, n, args, info)
        return self.inner('a stage', st, r) if n == 'call' else r

    def update(self, I, st, args, info):
        return self.inner('an update operator', st, MachineMon.update(self, I, st, args, info))

    def candidate(self, I, st, info):
        if sum(1 for e in self.ev(st) if e[0] == 'cand') >= self.max_cands:
            return MachineMon.candidate(self, I, st, info)
        return self.inner('decoding a document', st, MachineMon.candidate(self, I, st, info))

    def split(self, I, st, args, info):
        return self.inner('splitting a key', st, MachineMon.split(self, I, st, args, info))

    def call2(self, I, st, fn, b, args, info):
        r = MachineMon.call2(self, I, st, fn, b, args, info)
        if b is not None and (b.id in self.enc or b.id in self.enc1) and self.inner_errors and r:
            good = [(s, v) for s, v in r if not (v.op == 'agg' and v.args[0] == RESULT and v.args[1] == 1)]
            return self.inner('encoding a key', st, good)
        return r


def cursor_of(F, cls, program, cands, **kw):
    """(I, mon, state, root of a client cursor on the program)."""
    I, mon, st, root = machine(F, program, cands, cls, **kw)
    vm = adt_named(F, 'VM')
    new = [b for b in F.core.bodies if b.promoted is None and b.kind == 'AssocFn' and b.argc == 1 and b.crate.types[b.locals[1]].get('adt') == vm
           and ty_s(b, 0).split('<')[0].endswith('ClientCursor')]
    if len(new) != 1:
        raise Missing('the constructor of a client cursor (found %d)' % len(new))
    outs = I.run(new[0], [I.load(st, root)], st, I.ctx(None, 0, new[0]))
    if len(outs) != 1:
        raise Missing('a cursor for a machine: %d ways to construct it' % len(outs))
    s, v = outs[0]
    r = T('D', T('par', 'cursor'))
    s.mem[r] = I.deepval(s, v, 12)
    I.pin = I.pin + (T('par', 'cursor'),)
    return I, mon, s, r


def drive(F, program, cands, method, cls=CursorMon, rows=3, after=2, **kw):
    """Calls a method of the cursor until it ends (and `after` more times). [(history, [outcome of each call], state, why)]; an outcome is
    ('row'|'end'|'err', number of events before, after the call); why in done, rows, or a reason to stop."""
    I, mon, st, root = cursor_of(F, cls, program, cands, **kw)
    done, work = [], [(st, ())]
    while work:
        s, calls = work.pop()
        mon.ends = []
        n0 = len(mon.ev(s))
        outs = I.run(method, [T('par', 'cursor')], s, I.ctx(None, 0, method))
        for s2, why in mon.ends:
            done.append((mon.ev(s2), calls, s2, why))
        for s2, v in outs:
            k = outcome(v, s2, I)
            c = calls + ((k, n0, len(mon.ev(s2))),)
            ended = [i for i, x in enumerate(c) if x[0] != 'row']
            nrows = sum(1 for x in c if x[0] == 'row')
            if ended and len(c) - ended[0] > after:
                done.append((mon.ev(s2), c, s2, 'done'))
            elif nrows >= rows:
                done.append((mon.ev(s2), c, s2, 'rows'))
            else:
                work.append((s2, c))
    return I, mon, done


def outcome(v, st, I):
    """What advance (Result<bool>) or next (Option<Result<T>>) answered."""
    v = I.deepval(st, v, 4)
    if v.op == 'agg' and v.args[0] == OPTION:
        if v.args[1] == 0:
            return 'end'
        x = v.args[2][0]
        if x.op == 'agg' and x.args[0] == RESULT:
            return 'err' if x.args[1] == 1 else 'row'
        return 'row'            # what deserialising the row gave
    k = result_kind(v, st, I)
    if k == 'err':
        return 'err'
    if k == 'ok' and v.op == 'agg' and v.args[2] and v.args[2][0].op == 'c':
        return 'row' if v.args[2][0].args[1] else 'end'
    return '?' + show(v)[:80]
