"""What update and delete programs do: the source's compiled program is executed abstractly (vmrun.py) on candidates with
unknown values, and every path's writes are compared with what the operation says."""
from query import *

UPD = (('$set', 'X'), ('$inc', 'Y'), ('$unset', 'Z'))


def update_doc(n):
    return doc(*[(o, bson('Document', doc(('b', bson('Int64', T('par', v)) if o == '$inc' else T('par', v))))) for o, v in UPD[:n]])


def vm_field(F, st, root, I, name):
    adt = adt_named(F, 'VM')
    for i, f in enumerate(F.adts[adt]['v'][0][2]):
        if f[0] == name:
            return I.deepval(st, proj(I.load(st, root), ('f', None, i)))
    raise Missing('the field %s of the machine' % name)


def entry(k, indexes):
    """(index name, field) of an index key, by the name it holds."""
    names = [const_str(x) for x in elems(k)]
    for n, f in indexes:
        if n in names:
            return n, f
    return None


def entries(maps, indexes):
    return {(n, maps[f], maps['_id']) for n, f in indexes if f in maps}


def doc_map(t):
    if t.op == 'agg' and len(t.args[2]) == 1:
        t = t.args[2][0]
    it = doc_items(t)
    return None if it is None else {k.args[1]: v for k, v in it}


class WriteTrial(Trial):
    def __init__(self, F, kind, ast, n=2, indexes=(), is_many=1, nops=2, missing=(), ends=False, unique=False):
        self.kind, self.many, self.indexes, self.nops = kind, is_many, indexes, nops
        Trial.__init__(self, F, ast, ('a', 'b'), missing, indexes, n, None, r'.*SubProgram::compile_' + kind,
                       update=update_doc(nops) if kind == 'update' else None, is_many=is_many, ends=ends, unique=unique)

    def writes(self, es, k):
        """(updates, document puts, document deletes, index events, stored document or None) of one candidate's events."""
        ups = [e for e in es if e[0] == 'update']
        puts, dels, ix = [], [], []
        for e in es:
            if e[0] == 'ffi' and e[1] in (PUT, DELETE):
                if kind_of(e[2]) == 'index':
                    ix.append(e)
                elif e[1] == PUT:
                    puts.append(e)
                else:
                    dels.append(e)
        return ups, puts, dels, ix

    def value(self, e):
        v = e[3]
        if v is not None and v.op == 'pure' and v.args[0] == 'bytes':
            v = v.args[1]
        return v

    def examine(self):
        """[(property, kind, description, events)]; also counts what was examined."""
        out = []
        self.judged = self.done = self.idle = self.paths_ok = self.stored = self.entries = 0
        def bad(p, k, d, ev):
            out.append((p, k, d, ev))
        for I, p, ev, why, st, root in self.paths:
            if why == 'err' or why == 'bad' or why.startswith('state'):
                if why != 'err' or not self.expected_error(ev):
                    bad('C16' if why == 'bad' else 'C28', 'fails', 'the execution fails: %s' % (ev[-1][1] if ev and isinstance(ev[-1][1], str) else show(ev[-1][1])[:120] if ev else why), ev)
                continue
            if why == 'rows':
                continue
            self.paths_ok += 1
            segs = segments(ev)
            hits = rewritten = removed = 0
            for j, (k, es) in enumerate(segs):
                ups, puts, dels, ix = self.writes(es, k)
                if k < 0:
                    if ups or puts or dels or ix:
                        bad('C27', 'stray', 'writes before any document is fetched', es)
                    continue
                self.judged += 1
                want = True if self.ast is None else self.env(segs, j, k, I, st).doc(self.ast)
                final = puts or dels or ups
                was = bson('Document', self.cands[k])
                cur = was
                if self.kind == 'update':
                    if dels:
                        bad('C27', 'stray', 'an update removes the document', es)
                    fs = [e[1] for e in ups]
                    if ups and (len(ups) != self.nops or len(set(fs)) != self.nops):
                        bad('C26', 'operators', 'applies %d operators (%d different) of the %d the update names' % (len(ups), len(set(fs)), self.nops), es)
                    changed = False
                    for e in ups:
                        if strip_doc(e[2]) is not strip_doc(cur):
                            bad('C26', 'chain', 'an operator is applied to something other than the document the operator before it left', es)
                        cur, changed = e[4], changed or e[3] == 1
                    if changed and not puts:
                        bad('C26', 'lost', 'an operator changed the document and the result is not written back (%s)' % flags(ups), es)
                    if puts and not changed:
                        bad('C26', 'rewritten', 'the document is written back although no operator changed it (%s)' % flags(ups), es)
                    if len(puts) > 1:
                        bad('C26', 'twice', 'the document is written back %d times' % len(puts), es)
                    for e in puts:
                        if strip_doc(self.value(e)) is not strip_doc(cur):
                            bad('C26', 'value', 'what is written back is not the document the operators produced', es)
                    hits += bool(ups)
                    rewritten += bool(puts)
                    self.done += bool(puts)
                    self.idle += bool(ups) and not puts
                    stored = doc_map(self.value(puts[-1])) if puts else self.maps[k]
                else:
                    if puts:
                        bad('C27', 'stray', 'a delete stores a document', es)
                    if len(dels) > 1:
                        bad('C27', 'twice', 'the document is removed %d times' % len(dels), es)
                    hits += bool(dels)
                    self.done += bool(dels)
                    stored = None if dels else self.maps[k]
                if final and want is False:
                    bad('C27', 'wrong', 'a document that does not match is %s' % ('updated' if self.kind == 'update' else 'deleted'), es)
                acted = bool(ups) if self.kind == 'update' else bool(dels)
                if want and not acted and (self.many or hits == 0):
                    bad('C27', 'missed', 'a document that matches is not %s' % ('updated' if self.kind == 'update' else 'deleted'), es)
                if not self.many and hits > 1 and acted:
                    bad('C27', 'second', 'a single-document operation goes on to a second document', es)
                # index entries
                if stored is None and not dels:
                    bad('C10', 'unknown', 'the stored document is not known', es)
                    continue
                have = entries(self.maps[k], self.indexes)
                for e in ix:
                    m = entry(e[2], self.indexes)
                    if m is None:
                        bad('C10', 'unknown', 'an index entry of no index of the collection is written: %s' % show(e[2])[:120], es)
                        continue
                    xs = elems(e[2])
                    own = [(v, i) for mp in ([self.maps[k]] + [doc_map(u[4]) for u in ups]) for v, i in [(mp.get(m[1]), mp.get('_id'))] if v is not None and any(strip(x) is v for x in xs) and strip(xs[-1]) is i]
                    if not own:
                        bad('C10', 'foreign', 'an index entry that belongs to no version of the document is %s: %s' % ('written' if e[1] == PUT else 'removed', show(e[2])[:120]), es)
                        continue
                    t = (m[0], own[0][0], own[0][1])
                    (have.add if e[1] == PUT else have.discard)(t)
                    self.entries += 1
                need = entries(stored, self.indexes) if stored else set()
                if have - need:
                    bad('C10', 'stale', 'the index entry of %s for a value the document no longer has is left behind' % sorted(x[0] for x in have - need), es)
                if need - have:
                    bad('C10', 'absent', 'the index %s has no entry for the stored document' % sorted(x[0] for x in need - have), es)
                self.stored += 1
            # counts
            r2, r4 = vm_field(self.F, st, root, I, 'r2'), vm_field(self.F, st, root, I, 'r4')
            if r2 is not I_(hits):
                bad('C28', 'count', '%d documents were %s and the machine counted %s' % (hits, 'matched' if self.kind == 'update' else 'deleted', show(r2)), ev)
            if self.kind == 'update' and r4 is not I_(rewritten):
                bad('C28', 'modified', '%d documents were written back and the machine counted %s as modified' % (rewritten, show(r4)), ev)
        return out

    def expected_error(self, ev):
        """A duplicate in a unique index."""
        e = ev[-1]
        return e[0] == 'error' and 'DuplicateKey' in show(e[1])


def strip_doc(t):
    return t.args[2][0] if t.op == 'agg' and len(t.args[2]) == 1 else t


def flags(ups):
    return ', '.join('changed' if e[3] else 'no change' for e in ups)


A, P = T('par', 'A'), T('par', 'P')
QUERIES = {
    'all': q(),
    'a': q(('a', A)),
    'id': q(('_id', P)),
    'id+a': q(('_id', P), ('a', A)),
    'gt': q(('a', ops(('$gt', A)))),
    'or': q(OR(q(('a', A)), q(('b', T('par', 'B'))))),
    # a comparison with values of a known type: unknown ones would be compared structurally, without end
    'in': lambda: q(('a', ops(('$in', ('arr', (bson('ObjectId', T('par', 'o1')), bson('ObjectId', T('par', 'o2')))))))),
}
INDEXES = {'none': (), 'a': (('ia', 'a'),), 'b': (('ib', 'b'),), 'ab': (('ia', 'a'), ('ib', 'b'))}


def query(qn):
    x = QUERIES[qn] if qn else None
    return x() if callable(x) else x


def job(F, j):
    """j: (kind, query, is_many, n, index world, number of operators, missing, ends, unique) -> plain result."""
    kind, qn, many, n, world, nops, missing, ends, unique = j
    t = WriteTrial(F, kind, query(qn), n, INDEXES[world], many, nops, missing, ends, unique)
    probs = []
    for p, k, d, ev in t.examine():
        probs.append((p, k, d, story(ev)[:400]))
    if not t.programs:
        probs.append(('C27', 'compile', 'the %s does not compile' % kind, '; '.join(show(x)[:100] for x in t.rejected)))
    return {'problems': probs, 'judged': t.judged, 'done': t.done, 'idle': t.idle, 'paths': len(t.paths), 'ok': t.paths_ok,
            'stored': t.stored, 'entries': t.entries, 'fetches': t.fetches, 'ops': sorted(t.ops), 'panics': len(t.emit_panics) + len(getattr(t, 'panics', ()))}


def label(j):
    kind, qn, many, n, world, nops, missing, ends, unique = j
    return '%s_%s with query %s, %s, indexes on %s%s%s%s' % (
        kind, 'many' if many else 'one', text(query(qn)) if qn else '(all)', '%d candidates' % n, world, ' (unique)' if unique else '',
        ', %d operators' % nops if kind == 'update' else '', ', %s missing' % '/'.join(missing) if missing else '')


def run_jobs(ctx, prop, js):
    """Runs the jobs; reports the problems of this property; returns the summed counters."""
    tot = {}
    for j, r in zip(js, parallel(ctx.F, job, js)):
        seen = set()
        for p, k, d, s in r['problems']:
            if (p == prop or p == 'C27' and k == 'compile') and (k, d) not in seen:
                seen.add((k, d))
                ctx.viol('%s:%s:%s%s' % (k, j[0], 'many' if j[2] else 'one', ':' + j[4] if prop == 'C10' else ''),
                         '%s: %s' % (label(j), d), s)
        for x in ('judged', 'done', 'idle', 'paths', 'stored', 'entries', 'fetches'):
            tot[x] = tot.get(x, 0) + r[x]
        tot.setdefault('ops', set()).update(r['ops'])
        ctx.sample('%s: %d paths, %d candidates judged' % (label(j), r['paths'], r['judged']))
    return tot
