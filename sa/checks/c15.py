"""C15: key encoding and decoding agree."""
from vmrun import *
from query import parallel
import itertools

SIZES = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8, 'u128': 16, 'i128': 16}
P = lambda n: T('par', n)
PLAIN = {'Double': ('f64', 64), 'Boolean': ('bool', 1), 'Int32': ('i32', 32), 'Int64': ('i64', 64)}


def word(kind, size, v):
    return T('pure', 'word', S_(kind), I_(size), v)


def is_word(t):
    return t.op == 'pure' and t.args[0] == 'word'


class CodecMon(EmitMon):
    """Byte buffers are vectors of byte terms and multi-byte words. """

    def __init__(self, F):
        EmitMon.__init__(self, F)
        self.enc_ids = ()
        self.dead = []

    def inline(self, I, b, depth):
        return True if b.crate is self.F.core else None

    def bad(self, st, msg):
        self.dead.append((st, msg))
        return [(st, DIVERGE)]

    def order(self, fn, info):
        ga = [info.body.crate.types[x]['s'] for x in fn.get('ga', []) if isinstance(x, int)]
        e = [x for x in ga if 'Endian' in x]
        return e[0].rsplit('::', 1)[-1] if e else ''

    def append(self, I, st, w, items):
        v = I.read(st, w)
        if not (v.op == 'agg' and v.args[0] == 'vec'):
            return None
        st = st.copy()
        r, q = I.deref_loc(w)
        while I.load(st, r, q).op == 'ref':
            r, q = I.deref_loc(I.load(st, r, q))
        I.store(st, r, q, T('agg', 'vec', 0, v.args[2] + tuple(items)))
        return st

    def raw(self, I, st, v, tyname):
        """The items a byte slice or array stands for."""
        v0 = I.deepval(st, v)
        while v0.op == 'ref':
            v0 = I.read(st, v0)
        if v0.op == 'agg' and v0.args[0] in ('vec', 'array'):
            return list(v0.args[2])
        if v0.op == 'c' and v0.args[0] == 's':
            return [I_(b) for b in v0.args[1].encode()]
        if v0.op == 'pure' and v0.args[0] == 'bytes_of':
            return [word('raw', v0.args[1].args[1], v0)]
        return None

    def call(self, I, st, fn, args, info):
        n, p, d = fn.get('n') or '', fn.get('p') or '', fn.get('d') or ''
        tr = fn.get('tr') or ''
        if n.startswith('write_') and n[6:] in SIZES and 'WriteBytesExt' in (tr + p):
            k = n[6:]
            v = I.deepval(st, args[1])
            s = self.append(I, st, args[0], [v if SIZES[k] == 1 else word(k + self.order(fn, info), SIZES[k], v)])
            return [(s, mk_ok(UNIT))] if s else None
        if n in ('write_all', 'extend_from_slice', 'write') and len(args) == 2:
            x = self.raw(I, st, args[1], None)
            if x is not None:
                s = self.append(I, st, args[0], x)
                if s:
                    return [(s, UNIT if n == 'extend_from_slice' else mk_ok(UNIT))]
        if n in ('to_be_bytes', 'to_le_bytes') and len(args) == 1:
            t = info.body.crate.types[info.argtys[0]]['s']
            v = I.deepval(st, args[0])
            return [(st, arr([word(t + ('BigEndian' if n == 'to_be_bytes' else 'LittleEndian'), SIZES[t], v) if SIZES[t] > 1 else v]))]
        if n in ('from_be_bytes', 'from_le_bytes') and len(args) == 1:
            v = I.deepval(st, args[0])
            e = 'BigEndian' if n == 'from_be_bytes' else 'LittleEndian'
            if v.op == 'agg' and len(v.args[2]) == 1 and is_word(v.args[2][0]):
                w = v.args[2][0]
                t = info.body.crate.types[info.destty]['s']
                if w.args[1].args[1] == t + e:
                    return [(st, w.args[3])]
                return self.bad(st, 'reads as %s what is written as %s' % (t + e, w.args[1].args[1]))
        if n in ('bytes',) and len(args) == 1 and ('ObjectId' in p or 'Decimal128' in p):
            v = I.deepval(st, args[0])
            return [(st, T('pure', 'bytes_of', I_(12 if 'ObjectId' in p else 16), v))]
        if n == 'from_bytes' and len(args) == 1 and ('ObjectId' in p or 'Decimal128' in p):
            v = I.deepval(st, args[0])
            if v.op == 'agg' and len(v.args[2]) == 1 and is_word(v.args[2][0]):
                v = v.args[2][0].args[3]
            if v.op == 'pure' and v.args[0] == 'bytes_of':
                return [(st, v.args[2])]
        if n == 'timestamp_millis' and len(args) == 1:
            return [(st, T('pure', 'millis', I.deepval(st, args[0])))]
        if n == 'from_millis' and len(args) == 1:
            v = I.deepval(st, args[0])
            return [(st, v.args[1] if v.op == 'pure' and v.args[0] == 'millis' else T('pure', 'from_millis', v))]
        if n in ('as_bytes', 'bytes', 'into_bytes', 'as_slice') and len(args) == 1:
            v = I.deepval(st, args[0])
            if v.op == 'pure' and v.args[0] == 'utf8':
                v = v.args[1]
                return [(st, models.it('list', v) if n == 'bytes' else v if n == 'into_bytes' else T('ref', T('V', v), ()))]
        if n in ('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked') and len(args) == 1:
            x = self.raw(I, st, args[0], None)
            if x is not None:
                v = T('pure', 'utf8', arr_of(*x))
                return [(st, mk_ok(v) if n == 'from_utf8' else v)]
        if n in ('wrapping_sub', 'wrapping_add') and len(args) == 2:
            return [(st, T('pure', n, *(I.deepval(st, a) for a in args)))]
        r = self.reader(I, st, fn, n, p, tr, args, info)
        if r is not None:
            return r
        return EmitMon.call(self, I, st, fn, args, info)

    def source(self, I, st, w):
        """Where the reader keeps its slice, and the slice: (root, path, items)."""
        r, q = I.deref_loc(w)
        for _ in range(6):
            v = I.load(st, r, q)
            if v.op != 'ref':
                return None
            t = I.read(st, v)
            if t.op == 'agg' and t.args[0] in ('vec', 'array'):
                return r, q, list(t.args[2])
            r, q = I.deref_loc(v)
        return None

    def reader(self, I, st, fn, n, p, tr, args, info):
        if not args or not ('ReadBytesExt' in tr + p or 'io::Read' in tr + p or 'BufRead' in tr + p):
            return None
        src = self.source(I, st, args[0]) if args[0].op == 'ref' else None
        if src is None:
            return None
        r, q, items = src

        def rest(st, k):
            st = st.copy()
            I.store(st, r, q, T('ref', T('V', arr_of(*items[k:])), ()))
            return st
        eof = mk_err(P('end of input'))
        if n.startswith('read_') and n[5:] in SIZES:
            k, w = n[5:], SIZES[n[5:]]
            if not items:
                return [(st, eof)]
            x = items[0]
            if w == 1:
                if is_word(x):
                    return self.bad(st, 'one byte is read of a %s' % x.args[1].args[1])
                return [(rest(st, 1), mk_ok(x))]
            kind = k + self.order(fn, info)
            if not is_word(x) or x.args[1].args[1] != kind:
                return self.bad(st, 'a %s is read where %s is written' % (kind, x.args[1].args[1] if is_word(x) else 'a single byte (%s)' % show(x)[:40]))
            return [(rest(st, 1), mk_ok(x.args[3]))]
        if n == 'read_exact':
            want = self.arrlen(I, st, args[1], info)
            got, k = 0, 0
            while k < len(items) and got < want:
                got += items[k].args[2].args[1] if is_word(items[k]) else 1
                k += 1
            if got != want:
                return self.bad(st, '%d bytes are read where the encoder writes %s' % (want, [x.args[2].args[1] if is_word(x) else 1 for x in items[:k]]))
            s = rest(st, k)
            r2, q2 = I.deref_loc(args[1])
            while I.load(s, r2, q2).op == 'ref':
                r2, q2 = I.deref_loc(I.load(s, r2, q2))
            I.store(s, r2, q2, arr(items[:k]))
            return [(s, mk_ok(UNIT))]
        if n == 'read_until':
            stop = args[1]
            out = []
            cur = st
            for k, x in enumerate(items):
                if is_word(x):
                    out += self.bad(cur, 'a terminator is looked for in a %s' % x.args[1].args[1])
                    return out
                if x.op == 'c':
                    if x is stop:
                        s = self.append(I, cur, args[2], items[:k + 1])
                        return out + [(self.at(I, s, r, q, items[k + 1:]), mk_ok(I_(k + 1)))]
                    continue
                a = cur.copy()
                if I.assume(a, T('eq', x, stop), 1) is not False:
                    s = self.append(I, a, args[2], items[:k + 1])
                    out.append((self.at(I, s, r, q, items[k + 1:]), mk_ok(I_(k + 1))))
                b = cur.copy()
                I.assume(b, T('eq', x, stop), 0)
                cur = b
            s = self.append(I, cur, args[2], items)
            return out + [(self.at(I, s, r, q, []), mk_ok(I_(len(items))))]
        return None

    def at(self, I, st, r, q, items):
        st = st.copy()
        I.store(st, r, q, T('ref', T('V', arr_of(*items)), ()))
        return st

    def arrlen(self, I, st, a, info):
        v = I.read(st, a)
        while v.op == 'ref':
            v = I.read(st, v)
        if v.op == 'agg' and v.args[0] in ('array', 'vec'):
            return len(v.args[2])
        if v.op == 'rep':
            return int(str(v.args[1].args[1] if isinstance(v.args[1], Term) else v.args[1]))
        if v.op == 'pure' and v.args[0] in ('repeat', 'word'):
            return v.args[2].args[1]
        raise Missing('the length of the buffer read into: %s' % show(v)[:100])


def arr(items):
    return T('agg', 'array', 0, tuple(items))


# ------------------------------------------------------------ evaluation of byte arithmetic, exhaustive over its unknowns
def domain(name):
    if name.startswith('byte'):
        return range(256)
    if name == 'bool':
        return (0, 1)
    if name in ('time', 'inc'):
        return [0, (1 << 32) - 1] + [1 << i for i in range(32)]
    return None


MASK = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i64': 64, 'i32': 32, 'u128': 128}


def ev(t, env):
    """The value of a term, or None if it is not arithmetic over bytes."""
    o, a = t.op, t.args
    if o == 'c':
        return a[1] if isinstance(a[1], int) else None
    if o == 'par':
        return env.get(a[0])
    if o in ('cast', 'eq', 'lt', 'not', 'add', 'bin', 'pure'):
        if o == 'pure' and a[0] not in ('wrapping_sub', 'wrapping_add') and not str(a[0]).endswith('cast'):
            return None
        xs = [ev(x, env) if isinstance(x, Term) else x for x in (a[1:] if o in ('bin', 'cast', 'pure') else a)]
        if any(x is None for x in xs):
            return None
        if o == 'cast':
            return xs[-1] & ((1 << MASK[a[0]]) - 1) if a[0] in MASK else xs[-1]
        if o == 'eq':
            return int(xs[0] == xs[1])
        if o == 'lt':
            return int(xs[0] < xs[1])
        if o == 'not':
            return 1 - xs[0]
        if o == 'add':
            return xs[0] + xs[1]
        if o == 'pure':
            return (xs[0] - xs[1]) & 255 if a[0] == 'wrapping_sub' else (xs[0] + xs[1]) & 255 if a[0] == 'wrapping_add' else xs[-1]
        f = {'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y, 'BitXor': lambda x, y: x ^ y, 'Shl': lambda x, y: x << y & ((1 << 64) - 1),
             'Shr': lambda x, y: x >> y, 'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Lt': lambda x, y: int(x < y), 'Le': lambda x, y: int(x <= y),
             'Gt': lambda x, y: int(x > y), 'Ge': lambda x, y: int(x >= y), 'Eq': lambda x, y: int(x == y), 'Ne': lambda x, y: int(x != y)}
        for k, g in f.items():
            if a[0] in (k, k + 'WithOverflow', k + 'Unchecked'):
                return g(*xs[:2])
    return None


def unknowns(*ts):
    out, work, seen = set(), list(ts), set()
    while work:
        t = work.pop()
        if isinstance(t, tuple):
            work.extend(t)
        elif isinstance(t, Term) and t not in seen:
            seen.add(t)
            if t.op == 'par':
                out.add(t.args[0])
            work.extend(x for x in t.args if isinstance(x, (Term, tuple)))
    return out


def environments(st, names):
    """Every assignment of the given unknowns which the path allows."""
    names = sorted(n for n in names if domain(n) is not None)
    rel = [(k, f) for k, f in st.facts.items() if unknowns(k) and unknowns(k) <= set(names)]
    doms = []
    for n in names:
        own = [(k, f) for k, f in rel if unknowns(k) == {n}]
        doms.append([v for v in domain(n) if all(holds(k, f, {n: v}) for k, f in own)])
    size = 1
    for d in doms:
        size *= len(d)
    if size > 300000:
        return None
    return [dict(zip(names, vs)) for vs in itertools.product(*doms) if all(holds(k, f, dict(zip(names, vs))) for k, f in rel if len(unknowns(k)) > 1)]


def holds(k, f, env):
    v = ev(k, env)
    if v is None:
        return True
    return v == f[1] if f[0] == '=' else v not in f[1] if f[0] == '!' else True


def feasible(st):
    """Whether the facts about bytes of this path can hold."""
    ns = set()
    for k in st.facts:
        ns |= unknowns(k)
    for n in ns:
        if domain(n) is not None:
            e = [v for v in domain(n) if all(holds(k, f, {n: v}) for k, f in st.facts.items() if unknowns(k) == {n})]
            if not e:
                return False
    return True


def same(st, a, b):
    """Whether two terms have the same value on this path."""
    if a is b:
        return True
    if a.op == 'agg' and b.op == 'agg' and a.args[0].rsplit('::', 1)[-1] == b.args[0].rsplit('::', 1)[-1] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        return all(same(st, x, y) for x, y in zip(a.args[2], b.args[2]))
    if a.op == b.op == 'pure' and a.args[0] == b.args[0] == 'utf8':
        return same(st, a.args[1], b.args[1])
    if a.op == 'agg' or b.op == 'agg':
        return False
    es = environments(st, unknowns(a, b))
    if es is None:
        return False
    return all(ev(a, e) is not None and ev(a, e) == ev(b, e) for e in es)


def values(tier):
    """[(what, value)] for every kind of value."""
    out = []
    for k, (n, _) in PLAIN.items():
        out.append((k, bson(k, P(n))))
    for k in ('Null', 'Undefined', 'MinKey', 'MaxKey'):
        out.append((k, bson(k)))
    for k in ('String', 'Symbol'):
        for n in range(4 if tier == 'thorough' else 3):
            out.append(('%s of %d bytes' % (k, n), bson(k, T('pure', 'utf8', arr_of(*[P('byte%d' % i) for i in range(n)])))))
    out.append(('ObjectId', bson('ObjectId', P('oid'))))
    out.append(('DateTime', bson('DateTime', P('dt'))))
    out.append(('Decimal128', bson('Decimal128', P('dec'))))
    out.append(('Timestamp', bson('Timestamp', T('agg', 'bson::Timestamp', 0, (P('time'), P('inc'))))))
    return out


OTHER = ('Array', 'Document', 'RegularExpression', 'JavaScriptCode', 'JavaScriptCodeWithScope', 'Binary', 'DbPointer')
SENT = lambda: [bson('Int32', P('sentinel')), bson('Int64', P('sentinel2'))]


def encode(F, vals, multi=True):
    b = [x for x in F.core.bodies if x.id in keys.encoders(F)[0] and x.promoted is None]
    if len(b) != 1:
        raise Missing('the composite key encoder (found %d)' % len(b))
    mon = CodecMon(F)
    I = Interp(F, mon)
    I.pin = tuple(vals)
    st = St()
    st.mon = ()
    outs = I.run(b[0], [arr_of(*[vref(v) for v in vals])], st, I.ctx(None, 0, b[0]))
    return I, mon, [(s, result_kind(r, s, I), I.deepval(s, r, 12)) for s, r in outs if feasible(s)]


def splitters(F):
    bs = [b for b in F.core.bodies if b.promoted is None and b.kind in ('Fn', 'AssocFn') and b.argc == 1
          and re.fullmatch(r"&('\w+ )?\[u8\]", ty_s(b, 1)) and re.fullmatch(r'std::result::Result<std::vec::Vec<(bson::)*Bson>, .*', ty_s(b, 0))]
    if not bs:
        raise Missing('the function splitting composite keys')
    return bs


def decode(F, b, items, st):
    mon = CodecMon(F)
    I = Interp(F, mon)
    I.pin = (items,)
    st = st.copy()
    st.mon = ()
    outs = I.run(b, [T('ref', T('V', items), ())], st, I.ctx(None, 0, b))
    return I, mon, outs


def job(F, k):
    what, vals = JOBS[k]
    bad, n, kinds = [], 0, set()
    I, mon, outs = encode(F, vals)
    bad += [('panic', 'encoding can panic at %s' % w) for w, _ in mon.panics]
    bad += [('encode', msg) for s, msg in mon.dead if feasible(s)]
    ok = False
    for s, kind, r in outs:
        if kind != 'ok':
            continue
        ok = True
        items = r.args[2][0]
        while items.op == 'ref':
            items = I.read(s, items)
        if not (items.op == 'agg' and items.args[0] == 'vec'):
            bad.append(('encode', 'what it writes is not known: %s' % show(items)[:100]))
            continue
        for sp in splitters(F):
            I2, m2, o2 = decode(F, sp, items, s)
            live = [(s2, r2) for s2, r2 in o2 if feasible(s2)]
            bad += [('panic', '%s can panic at %s' % (sp.name, w)) for w, _ in m2.panics]
            # paths the codec monitor ended
            bad += [('read', msg) for s2, msg in m2.dead if feasible(s2)]
            for s2, r2 in live:
                n += 1
                if result_kind(r2, s2, I2) != 'ok':
                    bad.append(('fails', '%s fails on what the encoder writes (%s): %s' % (sp.name, show(items)[:80], show(I2.deepval(s2, r2))[:80])))
                    continue
                v = I2.deepval(s2, r2, 12).args[2][0]
                got = list(v.args[2]) if v.op == 'agg' else None
                if got is None or len(got) != len(vals):
                    bad.append(('count', '%d values are read back as %s' % (len(vals), '?' if got is None else len(got))))
                    continue
                for a, c in zip(vals, got):
                    if not same(s2, a, c):
                        bad.append(('value', '%s is read back as %s' % (show(a)[:80], show(c)[:80])))
            if not live and not bad:
                bad.append(('fails', '%s never finishes' % sp.name))
    return {'bad': bad, 'paths': n, 'supported': ok, 'errors': sum(k2 == 'err' for _, k2, _ in outs), 'outs': len(outs)}


def check(ctx):
    global JOBS
    F = ctx.F
    setup(F)
    ctx.rule('The key encoder is executed abstractly on every kind of value (content unknown; strings of 0 to 2 unknown bytes), alone and before '
             'and after other values, giving the sequence of bytes and words written; the splitting function is executed abstractly on that '
             'sequence. Every read must take exactly a word that was written, of that width and byte order; every path must give back the values '
             'encoded (arithmetic on bytes is compared for each of their values); values which cannot be keys must be refused by an error.')
    JOBS = []
    for what, v in values(ctx.tier):
        JOBS.append((what, [v]))
        JOBS.append((what + ' first', [v] + SENT()))
        JOBS.append((what + ' last', SENT() + [v]))
    for k in OTHER:
        if bson_variant(k) is not None:
            JOBS.append((k, [bson(k, P('content'))]))
    good = set()
    for (what, _), r in zip(JOBS, parallel(F, job, list(range(len(JOBS))))):
        kind = what.split()[0]
        for k, d in r['bad']:
            ctx.viol('%s:%s' % (k, kind), '%s: %s' % (what, d))
        if not r['outs']:
            ctx.viol('never:%s' % kind, '%s: encoding never finishes' % what)
        ctx.count('keys_encoded')
        ctx.count('decodings', r['paths'])
        if r['supported']:
            good.add(kind)
        elif not r['errors']:
            ctx.viol('refuse:%s' % kind, '%s is neither encoded nor refused' % what)
    variants = {v[0] for v in F.adts[BS]['v']} if BS in F.adts else set()
    for v in variants - {w.split()[0] for w, _ in JOBS}:
        ctx.viol('variant:%s' % v, 'values of kind %s were not examined' % v)
    ctx.count('kinds_supported', len(good))
    ctx.sample('kinds that can be keys: %s' % sorted(good))
    # unknown tags
    tags = 0
    used = set()
    for what, vals in JOBS:
        if len(vals) == 1:
            for s, kind, r in encode(F, vals)[2]:
                if kind == 'ok' and r.args[2][0].op == 'agg' and r.args[2][0].args[2] and r.args[2][0].args[2][0].op == 'c':
                    used.add(r.args[2][0].args[2][0].args[1])
    for t in range(256):
        if t in used or (ctx.tier == 'quick' and 32 < t < 126):
            continue
        for sp in splitters(F):
            I, mon, outs = decode(F, sp, arr_of(I_(t)), St())
            tags += 1
            for w, _ in mon.panics:
                ctx.viol('tag-panic', 'a key starting with byte %d makes %s panic at %s' % (t, sp.name, w))
            if any(result_kind(r, s, I) == 'ok' for s, r in outs):
                ctx.viol('tag:%d' % t, 'a key starting with byte %d, which the encoder never writes, is split without an error' % t)
    ctx.count('foreign_tags', tags)
    ctx.floor('kinds_supported', 10)
    ctx.floor('decodings', 40)
