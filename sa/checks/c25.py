"""C25: arithmetic on stored numbers neither wraps nor panics. Every update operator and aggregation operator is interpreted
abstractly on values of every pair of number types; the term of every number it computes, and every operation that would trap, is
decided by interval arithmetic over the full ranges of the stored types."""
import re
from checks.c31 import *
from pipes import PipeMon, run_pipe

RANGE = {'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}
BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
UBITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
FLOAT = 'float'
STRIP = ('from', 'into', 'try_from', 'try_into', 'clone', 'unwrap', 'deref', 'borrow')


def type_range(ty):
    if ty in BITS:
        return -2 ** (BITS[ty] - 1), 2 ** (BITS[ty] - 1) - 1
    if ty in UBITS:
        return 0, 2 ** UBITS[ty] - 1
    return None


class Numbers:
    """Interval arithmetic over terms whose unknowns are stored numbers of given types. self.bad collects operations whose result
    need not fit."""

    def __init__(self, kinds, I, st):
        self.kinds, self.I, self.st = kinds, I, st
        self.bad = []

    def guarded(self, t):
        """Did the path test this term (or a comparison with it)?"""
        def has(x):
            return x is t or isinstance(x, Term) and any(has(a) for a in x.args) or isinstance(x, tuple) and any(has(a) for a in x)
        return any(isinstance(k, Term) and has(k) for k in self.st.facts)

    def width(self, t):
        if t.op == 'par':
            return {'Int32': 32, 'Int64': 64}.get(self.kinds.get(t.args[0]), 0)
        if t.op == 'cast':
            return BITS.get(t.args[0], UBITS.get(t.args[0], 0))
        if t.op == 'pure':
            m = re.search(r'impl ([iu]\d+|[iu]size)', str(t.args[0]))
            if m:
                return BITS.get(m.group(1), UBITS.get(m.group(1), 0))
        return max([self.width(a) for a in t.args if isinstance(a, Term)] + [0])

    def of(self, t):
        """The interval of a term, narrowed by what the path tested of it."""
        v = self.plain(t)
        if v is None or v is FLOAT or t.op == 'c':
            return v
        lo, hi = v
        bits = self.width(t) or 64
        signed = lambda n: n - 2 ** bits if n >= 2 ** (bits - 1) and lo < 0 else n
        for k, f in self.st.facts.items():
            if k is t:
                if f[0] == '=' and isinstance(f[1], int):
                    lo = hi = signed(f[1])
                elif f[0] == '!':
                    out = {signed(n) for n in f[1] if isinstance(n, int)}
                    while lo in out:
                        lo += 1
                    while hi in out:
                        hi -= 1
            elif isinstance(k, Term) and k.op in ('eq', 'lt') and t in k.args and f in (('=', 0), ('=', 1)):
                a, b = k.args[-2:]
                o = b if a is t else a
                if not isinstance(o, Term) or o is t:
                    continue
                c = self.plain(o)
                if c is None or c is FLOAT:
                    continue
                if k.op == 'eq':
                    if f[1]:
                        lo, hi = max(lo, c[0]), min(hi, c[1])
                    elif c[0] == c[1]:
                        lo, hi = lo + (lo == c[0]), hi - (hi == c[0])
                elif (a is t) == bool(f[1]):      # t < o, or not o < t
                    hi = min(hi, c[1] - (1 if f[1] else 0))
                else:                             # not t < o, or o < t
                    lo = max(lo, c[0] + (1 if f[1] else 0))
        return (lo, hi) if lo <= hi else v

    def plain(self, t):
        """(lo, hi), FLOAT, or None when nothing is known (no stored number in it)."""
        if t.op == 'c':
            return (t.args[1], t.args[1]) if isinstance(t.args[1], int) else FLOAT if isinstance(t.args[1], float) else None
        if t.op == 'par':
            k = self.kinds.get(t.args[0])
            return FLOAT if k == 'Double' else RANGE.get(k)
        if t.op == 'cast':
            v, ty = self.of(t.args[-1]), t.args[0]
            if ty in ('f64', 'f32'):
                return FLOAT
            r = type_range(ty)
            if r is None or v is None:
                return v
            if v is FLOAT:
                if not self.guarded(t.args[-1]):
                    self.bad.append('a float is converted to %s, which alters values outside its range' % ty)
                return r
            if v[0] >= r[0] and v[1] <= r[1]:
                return v
            if not self.guarded(t.args[-1]):
                self.bad.append('%s is cut down to %s' % (show(t.args[-1])[:60], ty))
            return r
        if t.op == 'bin':
            op = t.args[0]
            a, b = self.of(t.args[1]), self.of(t.args[2])
            if FLOAT in (a, b):
                return FLOAT
            if a is None or b is None:
                return None
            r = self.arith(op, a, b)
            w = max(self.width(t.args[1]), self.width(t.args[2])) or 64
            if r is None:
                return None
            if (r[0] < -2 ** (w - 1) or r[1] > 2 ** (w - 1) - 1) and not self.guarded(t):
                self.bad.append('%s of two stored numbers may not fit in %d bits and wraps' % ({'Add': 'the sum', 'Sub': 'the difference', 'Mul': 'the product'}.get(op, op), w))
            return max(r[0], -2 ** (w - 1)), min(r[1], 2 ** (w - 1) - 1)
        if t.op == 'pure' or t.op == 'call':
            name = str(t.args[0]).rsplit('::', 1)[-1]
            args = [a for a in t.args[1:] if isinstance(a, Term)]
            vs = [self.of(a) for a in args]
            if FLOAT in vs:
                return FLOAT
            if not any(vs):
                return None
            if name.startswith(('wrapping_', 'saturating_', 'unchecked_', 'overflowing_')):
                r = self.arith(name.split('_', 1)[1].capitalize(), *vs) if len(vs) == 2 and None not in vs else (-2 ** 200, 2 ** 200)
                w = self.width(t) or 64
                if (r is None or r[0] < -2 ** (w - 1) or r[1] > 2 ** (w - 1) - 1) and not self.guarded(t):
                    self.bad.append('%s alters a result that does not fit' % name)
                return r
            if name.startswith('checked_'):
                w = self.width(t) or 64
                full = (-2 ** (w - 1), 2 ** (w - 1) - 1)
                r = self.arith(name[8:].capitalize(), *vs) if len(vs) == 2 and None not in vs else None
                return (max(r[0], full[0]), min(r[1], full[1])) if r else full
            if name in ('abs', 'neg', 'unsigned_abs') and vs[0]:
                w = self.width(t) or 64
                if name != 'unsigned_abs' and vs[0][0] < -2 ** (w - 1) + 1:
                    self.bad.append('%s of the smallest number of %d bits overflows' % (name, w))
                return 0 if name != 'neg' else -vs[0][1], max(abs(vs[0][0]), abs(vs[0][1]))
            if name == 'pow':
                self.bad.append('pow may overflow')
            return next((v for v in vs if v), None)
        vs = [self.of(a) for a in t.args if isinstance(a, Term)] + [self.of(b) for a in t.args if isinstance(a, tuple) for b in a if isinstance(b, Term)]
        return FLOAT if FLOAT in vs else next((v for v in vs if v), None)

    @staticmethod
    def arith(op, a, b):
        if op in ('Add',):
            return a[0] + b[0], a[1] + b[1]
        if op in ('Sub',):
            return a[0] - b[1], a[1] - b[0]
        if op in ('Mul',):
            p = [x * y for x in a for y in b]
            return min(p), max(p)
        return None


class NumMixin:
    kinds = {}

    def on_assert(self, I, st, kind, ops, info):
        if not hasattr(self, 'traps'):
            self.traps = []
        if 'verflow' not in str(kind) and 'ivision' not in str(kind) and 'emainder' not in str(kind):
            return
        if not any(p.args[0] in self.kinds for p in pars(*[o for o in ops if isinstance(o, Term)])):
            return
        n = Numbers(self.kinds, I, st)
        vs = [n.of(o) for o in ops]
        m = re.search(r'Add|Sub|Mul|Neg', str(kind))
        self.checked = getattr(self, 'checked', 0) + 1
        if m and None not in vs and FLOAT not in vs and len(vs) == 2:
            r = n.arith(m.group(0), *vs)
            w = max(n.width(o) for o in ops) or 64
            if r and r[0] >= -2 ** (w - 1) and r[1] <= 2 ** (w - 1) - 1:
                return
        if m and m.group(0) == 'Neg' and vs and vs[0] not in (None, FLOAT):
            w = max(n.width(o) for o in ops) or 64
            if vs[0][0] > -2 ** (w - 1):
                return
        self.traps.append(('%s of %s can overflow' % (m.group(0).lower() if m else str(kind), ' and '.join(show(o)[:50] for o in ops)), I.trace(st, 6)))


class PipeNum(NumMixin, PipeMon):
    pass


import updops


def apply_num(F, op, value, st, kinds):
    """updops.apply with the arithmetic watched."""
    class Mon(NumMixin, updops.OpMon):
        pass
    Mon.kinds = kinds
    old = updops.OpMon
    updops.OpMon = Mon
    try:
        return apply(F, op, value, st)
    finally:
        updops.OpMon = old


def numbers_in(v):
    """The contents of the number values in a term."""
    out, work, seen = [], [v], set()
    while work:
        t = work.pop()
        if isinstance(t, tuple):
            work.extend(t)
        elif isinstance(t, Term) and t not in seen:
            seen.add(t)
            if t.op == 'agg' and t.args[0] == BS and len(t.args[2]) == 1 and t.args[1] in [bson_variant(k) for k in NUM]:
                out.append((next(k for k in NUM if t.args[1] == bson_variant(k)), t.args[2][0]))
            else:
                work.extend(t.args)
    return out


def result_problem(v, kinds, need, I, st):
    """A complaint about the number values in a result."""
    for k, t in numbers_in(v):
        n = Numbers(kinds, I, st)
        r = n.of(t)
        if n.bad:
            return n.bad[0]
        if k in RANGE and r not in (None, FLOAT) and (r[0] < RANGE[k][0] or r[1] > RANGE[k][1]) and n.width(t) > (32 if k == 'Int32' else 64):
            return '%s does not fit %s' % (show(t)[:60], k)
    got = set()
    for k, t in numbers_in(v):
        got |= {p.args[0] for p in pars(t)}
    if not need <= got:
        return 'the result of an operation on two numbers is %s, which does not come from both' % ', '.join(show(t)[:60] for _, t in numbers_in(v))
    return None


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('Every arithmetic update operator ($inc, $mul) for every pair of number types, the other update operators on numbers, and the aggregation operators $abs and $sum (alone, nested, in '
             '$addFields and $group) are interpreted abstractly. The intervals of the stored types are propagated through the term of every number stored or returned, and through the operands of every '
             'operation that traps on overflow: a plain, wrapping, saturating or narrowing operation whose exact result need not fit is a violation, as is a panic, or a result that no longer depends on both numbers.')
    for name in ('$inc', '$mul'):
        for k1 in NUM:
            for k2 in NUM:
                kinds = {'cur': k1, 'opd': k2}
                what = '%s of %s by %s' % (name, k1, k2)
                I, mon, res = compile_update(F, doc((name, bdoc(('b', bson(k2, T('par', 'opd')))))))
                ok = 0
                for k, ops, s in res:
                    if k != 'ok' or len(ops) != 1:
                        continue
                    before = bdoc(('_id', ID), ('b', bson(k1, T('par', 'cur'))))
                    I2, m2, r = apply_num(F, ops[0], before, s, kinds)
                    ctx.absorb(I2)
                    for w, *_ in m2.panics:
                        ctx.viol('panic:%s:%s-%s' % (name, k1, k2), '%s can panic: %s' % (what, w))
                    for msg, tr in getattr(m2, 'traps', []):
                        ctx.viol('trap:%s:%s-%s' % (name, k1, k2), '%s: %s' % (what, msg), tr)
                    for k3, u, new, h, s2 in r:
                        ctx.count('paths')
                        if k3 != 'ok':
                            ctx.count('reported_as_errors')
                            continue
                        ok += 1
                        x = doc_map(new)
                        p = 'the document afterwards is not known' if x is None else result_problem(x.get('b', bson('Null')), kinds, {'cur', 'opd'}, I2, s2)
                        if p:
                            ctx.viol('result:%s:%s-%s' % (name, k1, k2), '%s: %s' % (what, p), I2.trace(s2))
                ctx.count('operator_cases')
                if not ok:
                    ctx.viol('never:%s:%s-%s' % (name, k1, k2), '%s never succeeds' % what)
    # the other operators must hand numbers on as they are
    for name, opd in (('$max', X), ('$min', X), ('$push', X), ('$pop', bson('Int32', I_(1))), ('$set', X), ('$rename', bstr('d'))):
        for k1 in NUM:
            v = bson(k1, T('par', 'cur'))
            o = bson(k1, T('par', 'opd')) if opd is X else opd
            before = barr(v, v) if name in ('$push', '$pop') else v
            I, mon, res = compile_update(F, doc((name, bdoc(('b', o)))))
            for k, ops, s in res:
                if k != 'ok' or len(ops) != 1:
                    continue
                kinds = {'cur': k1, 'opd': k1}
                I2, m2, r = apply_num(F, ops[0], bdoc(('_id', ID), ('b', before)), s, kinds)
                ctx.absorb(I2)
                for msg, tr in getattr(m2, 'traps', []):
                    ctx.viol('trap:%s:%s' % (name, k1), '%s on %s: %s' % (name, k1, msg), tr)
                for k3, u, new, h, s2 in r:
                    if k3 != 'ok' or doc_map(new) is None:
                        continue
                    ctx.count('paths')
                    p = result_problem(bson('Document', new) if new.op != 'agg' else new, kinds, set(), I2, s2)
                    if p:
                        ctx.viol('result:%s:%s' % (name, k1), '%s on %s: %s' % (name, k1, p), I2.trace(s2))
            ctx.count('operator_cases')
    # aggregation operators
    one_ = bson('Int32', I_(1))
    exprs = {'$abs': lambda a: bdoc(('$abs', a)), '$abs of $abs': lambda a: bdoc(('$abs', bdoc(('$abs', a)))), '$abs of $sum': lambda a: bdoc(('$abs', bdoc(('$sum', one_))))}
    jobs = []
    for e in exprs:
        for k in NUM:
            for n in (1, 2):
                jobs.append(('$addFields', e, k, n, 'field'))
            jobs.append(('$addFields', e, k, 1, 'constant'))
            jobs.append(('$group', e, k, 2, 'field'))
            jobs.append(('$group', e, k, 1, 'constant'))
    from query import parallel

    def one_job(F, j):
        stage, e, k, n, src = j
        kinds = {'a0': k, 'a1': k, 'K': k}
        PipeNum.kinds = kinds
        val = lambda f, i: bson(k, T('par', '%s%d' % (f, i)))
        expr = exprs[e](bstr('$a') if src == 'field' else bson(k, T('par', 'K')))
        entry = (stage, bdoc(('z', expr))) if stage == '$addFields' else (stage, bdoc(('_id', bson('Null')), ('z', expr)))
        bad, paths, trapn = [], 0, 0
        made = []
        class Mon(PipeNum):
            def __init__(self, *a):
                PipeNum.__init__(self, *a)
                made.append(self)
        emits = []
        cands, maps, res, rej, panics, steps = run_pipe(F, [entry], n, val=val, cls=Mon)
        what = '%s {%s} on %s (%s)' % (stage, e, k, src)
        for w, *_ in panics:
            bad.append(('panic', '%s can panic: %s' % (what, w), []))
        for m in made:
            for msg, tr in getattr(m, 'traps', []):
                bad.append(('trap', '%s: %s' % (what, msg), tr))
        for kk, rows, why, ev, s, I in res:
            if why != 'halt':
                if why not in ('more', 'err'):
                    bad.append(('ends', '%s ends with %s' % (what, why), I.trace(s)))
                continue
            for row in rows:
                paths += 1
                x = doc_map(row)
                z = x.get('z') if x else None
                need = {'a%d' % rows.index(row)} if stage == '$addFields' and src == 'field' and e != '$abs of $sum' else set()
                p = 'the row is not known: %s' % show(row)[:80] if z is None else result_problem(z, kinds, need, I, s)
                if p:
                    bad.append(('result', '%s: %s' % (what, p), I.trace(s)))
        return bad, paths, steps, bool(rej)
    for j, (bad, paths, steps, rej) in zip(jobs, parallel(F, one_job, jobs)):
        ctx.count('aggregation_cases')
        ctx.count('rows_judged', paths)
        ctx.count('blocks_interpreted', steps)
        if rej:
            ctx.count('aggregation_cases_rejected')
        for kind, msg, tr in bad:
            ctx.viol('%s:%s' % (kind, '-'.join(map(str, j)).replace(' ', '-')), msg, tr)
    ctx.floor('paths', 20)
    ctx.floor('rows_judged', 40)
