"""Operations executed on a small known database: an ordered list of records (catalog, documents, index entries, foreign records)
whose keys are structured terms and whose values are unknown. Storage iterators walk that list; every write is recorded."""
from glue import *

CREATE_IT = 'rocksdb_transaction_create_iterator'


def ptr(t):
    return T('pure', 'ptr', t)


def plain(x):
    """A key component without wrappers."""
    c = const_str(x)
    return strip(x) if c is None else S_(c)


class WorldMon(UnrollMon):
    """rest: (flags, runs, writes, iterators): iterators is a tuple of (handle, position); position None: no record known there."""
    fork_errors = False
    SPEC = T('par', 'catalog record')

    def __init__(self, F, records, indexes=(), unique=False, n_rows=0):
        UnrollMon.__init__(self, F, n_rows, indexes, unique)
        self.records = records
        self.pin = tuple(k for k, v in records) + tuple(v for k, v in records)
        self.n_rows = n_rows
        self.ends_seen = 0

    # -- iterators
    def its(self, st):
        return dict(st.mon[1][3]) if len(st.mon[1]) > 3 else {}

    def set_it(self, st, h, pos):
        d = self.its(st)
        d[h] = pos
        f, rest = st.mon
        st.mon = (f, rest[:3] + (tuple(sorted(d.items(), key=lambda x: id(x[0]))),))

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        c, runs, puts = rest[:3]
        if name in (PUT, DELETE) and len(puts) < 40:
            return (c, runs, puts + ((name, k, val),)) + rest[3:]
        return rest

    def handle(self, I, st, a):
        return I.deepval(st, a)

    def position(self, k):
        """Where a seek may end: at the first record that starts with the key; without one, behind the last or at a record of another
        collection; None: nothing is known about the key."""
        if not is_key(k):
            return [None]
        for i, (rk, _) in enumerate(self.records):
            if self.prefix(rk, k):
                return [i]
        return [len(self.records)] + ([len(self.records) - 1] if self.records else [])

    def prefix(self, k, p):
        a, b = elems(k), elems(p)
        return len(b) <= len(a) and all(plain(x) is plain(y) for x, y in zip(a, b))

    def do_ffi(self, I, st, n, args, info):
        if n == SEEK:
            out = []
            for p in self.position(self.key_arg(I, st, n, args)):
                s = st.copy()
                self.set_it(s, self.handle(I, s, args[0]), p)
                out.append((s, UNIT))
            return out
        if n == VALID:
            h = self.handle(I, st, args[0])
            p = self.its(st).get(h)
            if p is not None:
                return [(st, I_(1 if p < len(self.records) else 0))]
            a, b = st.copy(), st.copy()
            return [(a, I_(1)), (b, I_(0))]
        if n == NEXT:
            st = st.copy()
            h = self.handle(I, st, args[0])
            p = self.its(st).get(h)
            if p is not None:
                self.set_it(st, h, p + 1)
            return [(st, UNIT)]
        if n in (IKEY, IVAL):
            p = self.its(st).get(self.handle(I, st, args[0]))
            if p is not None and p < len(self.records):
                return [(st, ptr(self.records[p][0 if n == IKEY else 1]))]
            return [(st, ptr(T('par', 'unknown key' if n == IKEY else 'unknown value')))]
        return UnrollMon.do_ffi(self, I, st, n, args, info)

    def call(self, I, st, fn, args, info):
        n, p = fn.get('n') or '', fn.get('p') or ''
        if n == 'from_raw_parts' and args and args[0].op == 'pure' and args[0].args[0] == 'ptr':
            return [(st, vref(args[0].args[1]))]
        if n == 'to_vec' and len(args) == 1 and not p.startswith('bson'):
            v = I.deepval(st, args[0])
            if v.op == 'pure' and v.args[0] == 'bytes' or v.op == 'par':
                return [(st, v)]
        if n == 'from_slice' and p.startswith('bson::'):
            v = I.deepval(st, args[0])
            if v.op == 'pure' and v.args[0] == 'bytes':
                v = v.args[1]
                f, rest = st.mon
                if v is self.SPEC:
                    st = st.copy()
                    st.mon = (f, (rest[0] | {'catalog record'},) + rest[1:])
                    v = self.spec
                return [(st, mk_ok(v))]
        if n in ('cmp', 'partial_cmp', 'eq', 'ne') and len(args) == 2:
            x, y = (I.deepval(st, a) for a in args)
            if is_key(x) and is_key(y):
                same = len(elems(x)) == len(elems(y)) and self.prefix(x, y)
                if n in ('eq', 'ne'):
                    return [(st, I_(int(same == (n == 'eq'))))]
                o = T('agg', 'core::cmp::Ordering', 1 if same else 2, ())
                return [(st, o if n == 'cmp' else mk_some(o))]
        if n in ('eq', 'ne') and len(args) == 2:
            x, y = (I.deepval(st, a) for a in args)
            same = same_map(x, y)
            if same is not None:
                return [(st, I_(int(same == (n == 'eq'))))]
        r = self.strings(I, st, n, p, args, info) or UnrollMon.call(self, I, st, fn, args, info)
        return self.no_errors(r)

    def strings(self, I, st, n, p, args, info):
        """Strings built from constants."""
        if n in ('push_str', 'add_assign', 'push') and len(args) == 2:
            v, w = I.read(st, args[0]), I.deepval(st, args[1])
            if v.op == 'c' and v.args[0] == 's' and w.op == 'c':
                st = st.copy()
                r, q = I.deref_loc(args[0])
                I.store(st, r, q, S_(v.args[1] + (w.args[1] if w.args[0] == 's' else chr(w.args[1]))))
                return [(st, UNIT)]
        if n == 'replace' and len(args) == 3 and 'str' in p:
            v = [I.deepval(st, a) for a in args]
            if all(x.op == 'c' for x in v) and v[0].args[0] == 's':
                x = v[1].args[1]
                return [(st, S_(v[0].args[1].replace(x if isinstance(x, str) else chr(x), v[2].args[1])))]
        if n == 'as_ref' and len(args) == 1 and info.body.crate.types[info.destty]['s'] == '&str':
            v = I.deepval(st, args[0])
            if v.op == 'c' and v.args[0] == 's':
                return [(st, v)]
        if n == 'to_string' and len(args) == 1:
            v = I.deepval(st, args[0])
            if v.op == 'c' and v.args[0] == 'i':
                return [(st, S_(str(v.args[1])))]
        return None

    def call2(self, I, st, fn, b, args, info):
        return self.no_errors(UnrollMon.call2(self, I, st, fn, b, args, info))

    def no_errors(self, r):
        """Failing storage and codecs are other properties' business."""
        if r is not None and len(r) > 1:
            g = [(s, v) for s, v in r if not (v.op == 'agg' and v.args[0] == RESULT and v.args[1] == 1)]
            return g or r
        return r

    def starts(self, I, st, x, y, info):
        if is_key(x) and is_key(y):
            return [(st, I_(int(self.prefix(x, y))))]
        return [(st, I_(1)), (st.copy(), I_(0))]


def map_keys(t):
    out = []
    while t.op == 'docins':
        if t.args[1].op != 'c':
            return None
        out.append(t.args[1])
        t = t.args[0]
    return frozenset(out) if t.op == 'docempty' else None


def same_map(x, y):
    """Maps built from known keys: identical, with other keys, or not known."""
    a, b = map_keys(x), map_keys(y)
    if a is None or b is None:
        return None
    return True if x is y else False if a != b else None


def col_key(F, *e):
    return key(*e)


def B(s):
    return bson('String', S_(s))


def database(F, docs, indexes, catalog=True, foreign=True):
    """Records of a database holding the collection col with these documents and index entries, and another collection."""
    out = []
    byt = lambda x: T('pure', 'bytes', x)
    if catalog:
        out.append((key(B('$TABLE_META'), B('col')), byt(WorldMon.SPEC)))
    if foreign:
        out.append((key(B('$TABLE_META'), B('other')), byt(T('par', 'other catalog record'))))
    for d in docs:
        out.append((key(B('col'), strip(dict((k.args[1], v) for k, v in doc_items(d))['_id'])), byt(d)))
    for n, f in indexes:
        for d in docs:
            m = {k.args[1]: v for k, v in doc_items(d)}
            if f in m:
                out.append((key(B('$I'), B('col'), B(n), strip(m[f]), strip(m['_id'])), T('pure', 'bytes', T('par', 'entry'))))
    if foreign:
        out.append((key(B('$I'), B('other'), B(indexes[0][0] if indexes else 'ix'), T('par', 'foreign b'), T('par', 'foreign id')), T('pure', 'bytes', T('par', 'entry'))))
        out.append((key(B('other'), T('par', 'foreign id')), byt(doc(('_id', T('par', 'foreign id')), ('b', T('par', 'foreign b'))))))
    return out


def run_world(F, b, mon, args):
    a = []
    for i in range(b.argc):
        if i == 0:
            adt = b.crate.types[b.self_ty]['adt']
            a.append(vref(T('agg', adt, 0, tuple(S_('col') if f[0] == 'name' else T('par', 'self.' + f[0]) for f in F.adts[adt]['v'][0][2]))))
        else:
            a.append(args[i - 1])
    return run_entry(F, b, mon, (frozenset(), (), (), ()), args=a)


def struct(F, struct_name, **kw):
    adt = adt_named(F, struct_name)
    fl = [f[0] for f in F.adts[adt]['v'][0][2]]
    if set(fl) - set(kw):
        raise Missing('%s has fields other than %s' % (struct_name, sorted(kw)))
    return T('agg', adt, 0, tuple(kw[f] for f in fl))
