"""Abstract interpretation of the code generator: what program a query, update or pipeline of a given shape is compiled to.

Documents have known keys (operators, field names) and unknown values; the generator's loops over their entries and its
byte-code buffer are therefore known, and its output is an abstract program whose operands are terms."""
from core import *
from models import bson_variant, doc_items, some
import models
import keys


def doc(*items):
    d = T('docempty')
    for k, v in items:
        d = T('docins', d, S_(k), v)
    return d


BS = 'bson::bson::Bson'


def setup(F):
    for k, v in F.adts.items():
        engine.ADT_VARIANTS[k] = v['v']


def bson(kind, *v):
    return T('agg', BS, bson_variant(kind), tuple(v))


def bdoc(*items):
    return bson('Document', doc(*items))


def barr(*items):
    return bson('Array', T('agg', 'vec', 0, tuple(items)))


def bstr(s):
    return bson('String', S_(s))


def scalar(name):
    """An unknown value that is neither a document, an array nor a regular expression."""
    return T('par', 'v:' + name)


def arr_of(*items):
    return T('agg', 'vec', 0, tuple(items))


class EmitMon(Monitor):
    unroll = True
    vec_max = 4000
    join_limit = 10 ** 9
    exit_limit = 10 ** 9
    weight_limit = 10 ** 9
    depth_limit = 60

    def __init__(self, F):
        self.F = F
        self.panics = []
        self.enc_ids = keys.encoders(F)[0]

    def inline(self, I, b, depth):
        return b.crate.name == 'polodb_core' if hasattr(b.crate, 'name') else None

    def call(self, I, st, fn, args, info):
        n = fn.get('n') or ''
        p = fn.get('p') or ''
        if (fn.get('r') or fn.get('d')) in self.enc_ids and len(args) == 1:
            v = I.deepval(st, args[0])
            if v.op == 'agg' and v.args[0] in ('vec', 'array'):
                return [(st, mk_ok(keys.key(*[keys.strip(I.deepval(st, x)) for x in v.args[2]])))]
        if n in ('to_le_bytes', 'to_ne_bytes') and len(args) == 1 and args[0].op == 'c':
            v = args[0].args[1]
            t = info.body.crate.types[info.argtys[0]]['s']
            w = engine.INT_BITS[t] // 8
            v &= (1 << 8 * w) - 1
            return [(st, T('agg', 'array', 0, tuple(I_(v >> 8 * i & 255) for i in range(w))))]
        if n == 'resize' and len(args) == 3 and args[1].op == 'c':
            v = I.read(st, args[0])
            if v.op == 'agg' and v.args[0] == 'vec':
                k = args[1].args[1]
                st = st.copy()
                r, q = I.deref_loc(args[0])
                I.store(st, r, q, T('agg', 'vec', 0, v.args[2][:k] + (args[2],) * (k - len(v.args[2]))))
                return [(st, UNIT)]
        if n in ('into_iter', 'rev') and len(args) == 1 and args[0].op == 'agg' and 'ops::range::Range' in str(args[0].args[0]) \
                and len(args[0].args[2]) == 2 and all(x.op == 'c' for x in args[0].args[2]):
            lo, hi = (x.args[1] for x in args[0].args[2])
            x = [I_(i) for i in range(lo, hi)]
            return [(st, models.it('list', arr_of(*(x[::-1] if n == 'rev' else x))))]
        if n == 'chars' and len(args) == 1:
            v = I.deepval(st, args[0])
            if v.op == 'c' and v.args[0] == 's':
                return [(st, models.it('list', arr_of(*[I_(ord(x)) for x in v.args[1]])))]
        if n == 'split' and len(args) == 2 and 'str' in p:
            v = I.deepval(st, args[0])
            if v.op == 'c' and v.args[0] == 's' and args[1].op == 'c':
                return [(st, models.it('list', arr_of(*[S_(x) for x in v.args[1].split(chr(args[1].args[1]) if isinstance(args[1].args[1], int) else args[1].args[1])])))]
        if n == 'extend_from_slice' and len(args) == 2:
            v, w = I.read(st, args[0]), I.read(st, args[1])
            if v.op == 'agg' and v.args[0] == 'vec' and w.op == 'agg' and w.args[0] in ('array', 'vec'):
                st = st.copy()
                r, q = I.deref_loc(args[0])
                I.store(st, r, q, T('agg', 'vec', 0, v.args[2] + w.args[2]))
                return [(st, UNIT)]
        if n in ('index', 'index_mut') and len(args) == 2 and args[1].op == 'agg' and 'ops::range::Range' in str(args[1].args[0]):
            lo, hi = self.bounds(I, st, args)
            if lo is not None and n == 'index':
                return [(st, T('ref', T('V', arr_of(*I.read(st, args[0]).args[2][lo:hi])), ()))]
            if lo is not None:
                r, q = I.deref_loc(args[0])
                return [(st, T('ref', T('V', T('agg', 'slice', 0, (T('ref', r, q), I_(lo), I_(hi)))), ()))]
        if n == 'copy_from_slice' and len(args) == 2:
            d, w = I.read(st, args[0]), I.read(st, args[1])
            if d.op == 'agg' and d.args[0] == 'slice' and w.op == 'agg':
                st = st.copy()
                ref, lo, hi = d.args[2]
                r, q = I.deref_loc(ref)
                v = I.load(st, r, q)
                x = list(v.args[2])
                x[lo.args[1]:hi.args[1]] = w.args[2]
                I.store(st, r, q, T('agg', v.args[0], v.args[1], tuple(x)))
                return [(st, UNIT)]
        if n == 'iter' and len(args) == 1 or n == 'len' and len(args) == 1 or n == 'to_vec' and len(args) == 1:
            v = I.read(st, args[0])
            if v.op == 'agg' and v.args[0] == 'slice':
                ref, lo, hi = v.args[2]
                x = arr_of(*I.read(st, ref).args[2][lo.args[1]:hi.args[1]])
                if n == 'len':
                    return [(st, I_(len(x.args[2])))]
                if n == 'to_vec':
                    return [(st, x)]
                r, q = I.deref_loc(ref)
                return [(st, models.it('list', arr_of(*[T('ref', r, q + (('i', I_(i)),)) for i in range(lo.args[1], hi.args[1])])))]
        return None

    def bounds(self, I, st, args):
        v = I.read(st, args[0])
        if v.op != 'agg' or v.args[0] not in ('vec', 'array'):
            return None, None
        r = args[1]
        name = r.args[0].rsplit('::', 1)[-1]
        c = [x.args[1] if x.op == 'c' else None for x in r.args[2]]
        n = len(v.args[2])
        if None in c:
            return None, None
        if name == 'Range':
            return c[0], c[1]
        if name == 'RangeFrom':
            return c[0], n
        if name == 'RangeTo':
            return 0, c[0]
        if name == 'RangeFull':
            return 0, n
        return None, None

    def on_panic(self, I, st, fn, args, info):
        self.panics.append((info.where(), I.trace(st)))
        return None


def run_emit(F, body, args, facts=()):
    mon = EmitMon(F)
    I = Interp(F, mon)
    cid = I.ctx(None, 0, body)
    I.pin = tuple(args)
    st = St()
    st.mon = 0
    for f in facts:
        f(I, st)
    outs = I.run(body, args, st, cid)
    return I, mon, outs
