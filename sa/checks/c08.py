"""C08: primary keys are unique."""
from keys import *


class Mon(KeyMon):
    """rest: {('absent'|'found', key)}; the documents known not to exist / to exist on this path."""
    what = ''
    puts = other = 0

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        if name == GFU and kind_of(k) == 'doc':
            self.tests += 1
            k = (args[0], norm_key(k))
            return frozenset(x for x in rest if x[1] != k) | {(outcome, k)}
        if name == PUT:
            kd = kind_of(k)
            if kd == 'doc':
                self.puts += 1
                k = (args[0], norm_key(k))
                if ('absent', k) not in rest:
                    why = 'although it was found there' if ('found', k) in rest else \
                        'without having looked it up for update under the same key in this transaction'
                    self.violation('%s:unchecked' % self.what, '%s stores a document under a composed key (%s) %s'
                                   % (self.what, info.where(), why), I, st)
                return rest - {('absent', k)}
            if kd is None:
                self.other += 1
                if not self.standing(k):
                    self.violation('%s:foreign-key' % self.what, '%s stores under a key of unknown origin (%s): %s'
                                   % (self.what, info.where(), show(k)[:120]), I, st)
        return rest

    def standing(self, k):
        """In an instruction of the VM the only other key is the one of the entry its cursor stands on."""
        return self.op is not None and not is_key(k)


def check(ctx):
    F = ctx.F
    ctx.rule('Composite keys are tracked as lists of values. On every path of every operation that can store a document, '
             'storing under a composed document key requires an earlier lookup for update (exclusive, so it takes part in conflict '
             'detection) of the same key in the same operation which found nothing; when the lookup finds a document the '
             'operation must return an error.')
    writers = callgraph(F).callers((PUT,))
    entries = [b for b in impl_methods(F, 'CollectionT', 'Collection') if b.id in writers]
    entries += [b for b in inherent(F, 'DatabaseInner') if b.id in writers
                and any('TransactionInner' in ty_s(b, i) for i in range(1, b.argc + 1)) and b.pub]
    for b in entries:
        mon = Mon(F)
        mon.what, mon.tests = b.np, 0
        I, outs = run_entry(F, b, mon, frozenset())
        ctx.absorb(I)
        ctx.count('operations')
        for s, r in outs:
            ctx.count('exit_obligations')
            if any(x[0] == 'found' for x in s.mon[1]) and result_kind(r, s, I) != 'err':
                mon.violation('%s:ok-duplicate' % b.np, '%s can return success although a document with the same key was found' % b.np, I, s)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
        ctx.count('document_stores', mon.puts)
        ctx.count('key_lookups', mon.tests)
        ctx.sample('%s: %d document stores, %d lookups for update' % (b.np, mon.puts, mon.tests), 40)
    for op, eff in arm_effects(F).items():
        if PUT not in eff:
            continue
        mon = Mon(F)
        mon.what, mon.tests = 'instruction ' + op, 0
        I, ends = run_arm(F, op, mon)
        ctx.absorb(I)
        ctx.count('instructions')
        ctx.count('rewrites_of_current_entry', mon.other)
        for k, (m, t) in mon.viol.items():
            ctx.viol(k, m, t)
    ctx.floor('instructions', 1)
    ctx.floor('operations', 10)
    ctx.floor('document_stores', 2)
