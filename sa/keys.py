"""Storage keys as terms: composite keys are lists of encoded values, stored values are serialised documents."""
from txnmon import *

GET, GFU = 'rocksdb_transaction_get', 'rocksdb_transaction_get_for_update'
SEEK, VALID, NEXT, IKEY, IVAL = ('rocksdb_iter_' + x for x in ('seek', 'valid', 'next', 'key', 'value'))
KEY_EVENTS = (PUT, DELETE, GET, GFU, SEEK)


def key(*elems):
    return T('agg', 'key', 0, tuple(elems))


def is_key(t):
    return t.op == 'agg' and t.args[0] == 'key'


def elems(t):
    return t.args[2] if is_key(t) else ()


def bson_str(t):
    """The string inside a Bson::String term (constant or not), else None."""
    if t.op == 'agg' and t.args[0].endswith('bson::Bson') and len(t.args[2]) == 1:
        return t.args[2][0]
    return None


def const_str(t):
    s = bson_str(t)
    if s is not None and s.op == 'c' and s.args[0] == 's':
        return s.args[1]
    return None


def strip(t):
    """A key element by value: deref(getp(..)) and getp(..) denote the same stored value."""
    while t.op == 'deref' or t.op == 'ref' and t.args[0].op == 'D' and not t.args[1]:
        t = t.args[0] if t.op == 'deref' else t.args[0].args[0]
    return t


def norm_key(t):
    return key(*[strip(x) for x in elems(t)])


def kind_of(k):
    """'index', 'catalog', 'doc' or None for a key term."""
    e = elems(k)
    if not e:
        return None
    s = const_str(e[0])
    if s == '$I':
        return 'index'
    if s is not None and s.startswith('$'):
        return 'catalog'
    return 'doc'


@memo
def encoders(F):
    return ({b.id for b in F.find(r'.*::stacked_key', 'polodb_core')}, {b.id for b in F.find(r'.*::stacked_key_bytes', 'polodb_core')})


class KeyMon(TxnMon):
    """rest is a frozenset of tuples (event, ...)."""

    def __init__(self, F):
        TxnMon.__init__(self, F)
        self.enc, self.enc1 = encoders(F)
        if not self.enc or not self.enc1:
            raise Missing('the composite key encoder')

    def relevant_events(self):
        return KEY_EVENTS

    def opaque_body(self, I, b):
        return b.id in self.enc or b.id in self.enc1 or TxnMon.opaque_body(self, I, b)

    def content(self, I, st, t):
        n = 0
        while n < 12:
            n += 1
            if t.op == 'pure' and str(t.args[0]).endswith('cast') and len(t.args) > 1:
                t = t.args[-1]
            elif t.op == 'pure' and t.args[0] == 'ptr':
                return t.args[1]
            elif t.op == 'ref':
                t = I.read(st, t)
            elif t.op == 'call' and t.args[0].endswith('as_ptr') and len(t.args) > 3:
                t = t.args[3]
            else:
                break
        return I.deepval(st, t)

    def key_arg(self, I, st, name, args):
        i = {PUT: 1, DELETE: 1, GET: 2, GFU: 2, SEEK: 1}[name]
        k = self.content(I, st, args[i])
        return k

    def call(self, I, st, fn, args, info):
        n = fn.get('n') or ''
        if n == 'as_ptr' and len(args) == 1:
            return [(st, mk_pure('ptr', I.deepval(st, args[0])))]
        if n == 'to_vec' and len(args) == 1:
            if fn['p'].startswith('bson'):
                return [(st.copy(), mk_ok(mk_pure('bytes', I.deepval(st, args[0])))),
                        (st.copy(), mk_err(T('call', 'to_vec/error', info.sid, 0)))]
            v = I.deepval(st, args[0])
            if is_key(v):
                return [(st, v)]
        if n == 'extend_from_slice' and len(args) == 2:
            v, w = I.read(st, args[0]), I.deepval(st, args[1])
            if is_key(w) and (is_key(v) or v.op == 'agg' and v.args[0] == 'vec' and not v.args[2]):
                st = st.copy()
                r, p = I.deref_loc(args[0])
                I.store(st, r, p, key(*(elems(v) + elems(w))))
                return [(st, UNIT)]
        if n == 'starts_with' and len(args) == 2:
            r = self.starts(I, st, I.deepval(st, args[0]), I.deepval(st, args[1]), info)
            if r is not None:
                return r
        return TxnMon.call(self, I, st, fn, args, info)

    def starts(self, I, st, x, y, info):
        return None

    def call2(self, I, st, fn, b, args, info):
        if b is not None and b.id in self.enc:
            v = I.deepval(st, args[0])
            k = key(*v.args[2]) if v.op == 'agg' and v.args[0] in ('vec', 'array') else key(T('rest', v))
            if v.op == 'agg' and v.args[0] == 'array' or v.op == 'agg' and v.args[0] == 'vec':
                k = key(*[strip(I.deepval(st, x)) for x in v.args[2]])
            return [(st.copy(), mk_ok(k)), (st.copy(), mk_err(T('call', 'key-encoding/error', info.sid, 0)))]
        if b is not None and b.id in self.enc1:
            st = st.copy()
            bad = st.copy()
            v = I.read(st, args[0])
            r, p = I.deref_loc(args[0])
            w = args[0]
            if v.op == 'ref':           # &mut &mut Vec
                r, p = I.deref_loc(v)
                v = I.read(st, v)
            e = strip(I.deepval(st, args[1]))
            base = elems(v) if is_key(v) else () if v.op == 'agg' and v.args[0] == 'vec' and not v.args[2] else (T('rest', v),)
            I.store(st, r, p, key(*(base + (e,))))
            return [(st, mk_ok(UNIT)), (bad, mk_err(T('call', 'key-encoding/error', info.sid, 0)))]
        return TxnMon.call2(self, I, st, fn, b, args, info)

    def vm_exec(self, I, st, vm, args, info):
        src, ops = self.program_of(I, st, vm)
        self.execs.add((info.body.np, src))
        f, rest = st.mon
        rest = self.on_vm(I, st, rest, src, ops, info)
        out = []
        for res in ('ok', 'err'):
            s = st.copy()
            s.mon = (0, rest)
            r0, p = I.deref_loc(args[0])
            self.after_exec(I, s, r0, p, info, res)
            out.append((s, mk_ok(UNIT) if res == 'ok' else mk_err(T('call', 'VM::execute/error', info.sid, 0))))
        return out

    def on_vm(self, I, st, rest, src, ops, info):
        return rest

    def do_ffi(self, I, st, n, args, info):
        if n in (GET, GFU):
            k = self.key_arg(I, st, n, args)
            ret = T('call', n, info.sid, 0, *args)
            found, absent = st.copy(), st.copy()
            I.assume(found, mk_eq(ret, I_(0)), 0)
            excl = n == GFU and any(a.op == 'c' and a.args[1] == 1 for a in args[4:])
            for s, o in ((found, 'found'), (absent, 'absent')):
                f, rest = s.mon
                s.mon = (f, self.on_key(I, s, rest, n if n == GET or excl else GET, args, k, None, o, info))
            outs = [(found, ret), (absent, I_(0))]
            if self.fork_errors:
                bad = st.copy()
                errarg = args[-1]
                r0, p = I.deref_loc(errarg)
                e = T('call', n + '/error', info.sid, 0)
                I.store(bad, r0, p, e)
                I.assume(bad, mk_eq(e, I_(0)), 0)
                outs.append((bad, I_(0)))
            return outs
        return TxnMon.do_ffi(self, I, st, n, args, info)

    def ffi(self, I, st, name, args, info):
        f, rest = st.mon
        if name in (PUT, DELETE, SEEK):
            k = self.key_arg(I, st, name, args)
            val = self.content(I, st, args[3]) if name == PUT else None
            st.mon = (f, self.on_key(I, st, rest, name, args, k, val, None, info))
        elif name == VALID:
            a, b = st.copy(), st.copy()
            t = T('call', name, info.sid, 0, *args)
            I.assume(a, mk_eq(t, I_(0)), 0)
            a.mon = (f, self.on_key(I, a, rest, name, args, None, None, 'valid', info))
            b.mon = (f, self.on_key(I, b, rest, name, args, None, None, 'end', info))
            return [(a, t), (b, I_(0))]
        elif name in (NEXT, IKEY):
            st.mon = (f, self.on_key(I, st, rest, name, args, None, None, None, info))
        return None

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        return rest


class UniqueMon(KeyMon):
    """Every index is taken to be a unique one: reading the index options yields unique = Some(true)."""
    watch_fields = ('unique', 'options')

    def __init__(self, F):
        KeyMon.__init__(self, F)
        self.opts = adt_named(F, 'IndexOptions')
        names = [f[0] for f in F.adts[self.opts]['v'][0][2]]
        if 'unique' not in names:
            raise Missing('IndexOptions.unique')
        self.uval = mk_some(I_(1))
        self.oval = mk_some(T('agg', self.opts, 0, tuple(self.uval if n == 'unique' else T('par', 'opt-' + n) for n in names)))
        self.seen = 0

    def place_ty(self, I, cid, p, upto):
        """Type of the place p up to (not including) element upto, or None."""
        body = I.ctxs[cid][2]
        crate = body.crate
        t = crate.types[body.locals[p[0]]]
        var = 0
        for e in p[1:upto]:
            if e == '*':
                if t.get('k') in ('ref', 'ptr') or t.get('a'):
                    t = crate.types[t['a'][0]]
                else:
                    return None
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'f':
                if t.get('k') == 'adt':
                    if t['adt'] in (OPTION, RESULT):
                        t = crate.types[t['a'][var if t['adt'] == RESULT else 0]]
                    else:
                        return None
                    var = 0
                else:
                    return None
            else:
                return None
        return t

    def on_field(self, I, st, root, path, place, e, cid):
        i = place.index(e)
        t = self.place_ty(I, cid, place, i)
        adt = (t or {}).get('adt')
        if adt is None:
            return
        fs = self.F.adts.get(adt)
        if fs is None or not fs['v'] or e[1] >= len(fs['v'][0][2]) or fs['v'][0][2][e[1]][0] != e[2]:
            return
        if e[2] == 'unique' and adt == self.opts:
            val = self.uval
        elif e[2] == 'options':
            ft = None
            for c in self.F.crates.values():
                if adt in c.adts:
                    ft = c.types[c.adts[adt]['v'][0][2][e[1]][1]]['s']
            if not ft or 'IndexOptions' not in ft or 'Option' not in ft:
                return
            val = self.oval
        else:
            return
        v = I.load(st, root, path)
        if v.op == 'agg' and (e[2] == 'unique' or v is self.oval):
            return
        self.seen += 1
        I.store(st, root, path, val)
