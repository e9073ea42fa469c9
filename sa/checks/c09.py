"""C09: unique indexes are enforced."""
from keys import *


def calls_in(t, name, out=None):
    """All calls of a function inside a term."""
    out = set() if out is None else out
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'call' and x.args[0] == name:
                out.add(x)
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def contains(t, sub):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is sub:
            return True
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)
    return False


class Mon(UniqueMon):
    """rest: ('locked', txn, E), ('sought', iterator, E), ('free'|'taken', E) for the key prefixes E tested on this path."""
    what = ''
    puts = tests = 0

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        if name == GFU and kind_of(k) == 'index':
            self.tests += 1
            return rest | {('locked', args[0], norm_key(k))}
        if name == SEEK:
            k = norm_key(k) if is_key(k) else None
            rest = frozenset(x for x in rest if not (x[0] == 'sought' and x[1] is args[0]))
            return rest | {('sought', args[0], k)} if k is not None else rest
        if name == NEXT:
            return frozenset(x for x in rest if not (x[0] == 'sought' and x[1] is args[0]))
        if name == VALID and outcome == 'end':
            for x in rest:
                if x[0] == 'sought' and x[1] is args[0] and self.locked(rest, x[2]):
                    return rest | {('free', x[2])}
        if name == PUT and kind_of(k) == 'index':
            self.puts += 1
            e = key(*elems(norm_key(k))[:-1])
            if ('free', e) not in rest and not self.fact(st, rest, e):
                if ('taken', e) in rest:
                    why = 'although the value was found in the index'
                elif not self.locked(rest, e):
                    why = 'without first locking the value (lookup for update of the entry prefix)'
                else:
                    why = 'without having found that no entry with the value exists'
                self.violation('%s:unchecked' % self.what, '%s adds an entry to a unique index (%s) %s'
                               % (self.what, info.where(), why), I, st)
            return frozenset(x for x in rest if x != ('free', e))
        return rest

    def locked(self, rest, e):
        return any(x[0] == 'locked' and x[2] is e for x in rest)

    def on_iter(self, rest, x, e):
        """x is the key an iterator sought on e stands on."""
        its = {c.args[3] for c in calls_in(x, IKEY)}
        return any(s[0] == 'sought' and s[2] is e and s[1] in its for s in rest)

    def starts(self, I, st, x, y, info):
        f, rest = st.mon
        if not is_key(y):
            return None
        e = norm_key(y)
        if not (self.locked(rest, e) and self.on_iter(rest, x, e)):
            return None
        a, b = st.copy(), st.copy()
        a.mon = (f, rest | {('taken', e)})
        b.mon = (f, rest | {('free', e)})
        return [(a, I_(1)), (b, I_(0))]

    def fact(self, st, rest, e):
        """Another comparison of the iterator's key with e that came out unequal."""
        for t, v in st.facts.items():
            if v == ('=', 0) and t.op in ('eq', 'pure', 'call') and contains(t, e) and self.locked(rest, e) and self.on_iter(rest, t, e):
                return True
        return False


def check(ctx):
    F = ctx.F
    ctx.rule('Every index is taken to be unique (reading its options yields unique = true). On every path of every operation and VM '
             'instruction, storing an index entry then requires that the entry prefix (everything but the primary key) was locked by '
             'an exclusive lookup, an iterator was positioned on the same prefix and either found no entry at all or one that does not '
             'start with the prefix; when it does, the operation must return an error.')
    cg = callgraph(F)
    writers = cg.callers((PUT,))
    entries = [b for b in inherent(F, 'DatabaseInner') if b.id in writers
               and any('TransactionInner' in ty_s(b, i) for i in range(1, b.argc + 1)) and b.pub]
    model = adt_named(F, 'IndexModel')

    def run1(what, f):
        mon = Mon(F)
        mon.what = what
        I, outs = f(mon)
        ctx.absorb(I)
        for s, r in outs:
            if r is None:
                continue
            ctx.count('exit_obligations')
            if any(x[0] == 'taken' for x in s.mon[1]) and result_kind(r, s, I) != 'err':
                mon.violation('%s:ok-duplicate' % what, '%s can go on successfully although a unique index already holds the value' % what, I, s)
        for s, r in outs:
            if r is None and any(x[0] == 'taken' for x in s.mon[1]):
                mon.violation('%s:ok-duplicate' % what, '%s can go on successfully although a unique index already holds the value' % what, I, s)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
        ctx.count('index_entry_stores', mon.puts)
        ctx.count('uniqueness_tests', mon.tests)
        ctx.count('option_reads', mon.seen)
        ctx.sample('%s: %d index entry stores, %d tests' % (what, mon.puts, mon.tests), 40)
        return mon.puts
    for b in entries:
        ctx.count('operations')
        run1(b.np, lambda mon: run_entry(F, b, mon, frozenset()))
    n = 0
    for op, eff in arm_effects(F).items():
        if PUT in eff:
            ctx.count('instructions')
            n += bool(run1('instruction ' + op, lambda mon: run_arm(F, op, mon)))
    ctx.count('instructions_adding_entries', n)
    ctx.floor('instructions_adding_entries', 1)
    ctx.floor('operations', 8)
    ctx.floor('index_entry_stores', 3)
