"""Abstract execution of a compiled program by the source's own interpreter: the code generator is run on a query of a given
shape (emit.py), and VM::execute is run on the program it produces, against candidates with known field names and unknown
values. Storage, comparisons and external functions are nondeterministic and recorded."""
import re
from keys import *
from emit import *
from isa import ptr_add

DEBUG = False
CODE = T('par', 'code')


@memo
def value_cmps(F):
    """The comparison of two values: fn(&Bson, &Bson) -> Result<Ordering>."""
    r = {b.id for b in F.core.bodies if b.promoted is None and b.kind in ('Fn', 'AssocFn')
         and b.argc == 2 and 'Result<std::cmp::Ordering' in ty_s(b, 0)
         and all(re.fullmatch(r"&('\w+ )?bson::(bson::)?Bson", ty_s(b, i)) for i in (1, 2))}
    if not r:
        raise Missing('the comparison of two values (fn(&Bson, &Bson) -> Result<Ordering>)')
    return r


class MachineMon(EmitMon, KeyMon):
    """Monitor state: (1, history) with history a tuple of events."""
    fork_errors = False
    storage_ends = True          # a storage iterator may be at its end
    max_cands = 2
    max_ends = 2
    weight_limit = 10 ** 9
    join_limit = 10 ** 9
    exit_limit = 10 ** 9
    depth_limit = 60

    def __init__(self, F, program, cands):
        KeyMon.__init__(self, F)
        self.panics = []
        self.enc_ids = self.enc
        self.cands = cands
        self.ends = []
        self.dbop = adt_named(F, 'DbOp')
        sp = F.adts[adt_named(F, 'SubProgram')]['v'][0][2]
        self.program = program
        self.code = None
        for i, (n, t, *_) in enumerate(sp):
            v = program.args[2][i]
            if v.op == 'agg' and v.args[0] == 'vec' and v.args[2] and all(x.op == 'c' for x in v.args[2]):
                self.code = v
        if self.code is None:
            raise Missing('the byte code of the compiled program')
        self.value_cmp = value_cmps(F)
        self.fetches = 0
        self.splitters = {b.id for b in F.core.bodies if b.promoted is None and b.kind in ('Fn', 'AssocFn') and b.argc == 1
                          and re.fullmatch(r"&('\w+ )?\[u8\]", ty_s(b, 1)) and re.fullmatch(r'std::result::Result<std::vec::Vec<(bson::)*Bson>, .*', ty_s(b, 0))}
        self.funcs_seen = {}

    def opaque_body(self, I, b):
        return b.id in self.enc or b.id in self.enc1 or b.id in self.value_cmp or b.id in self.splitters

    def inline(self, I, b, depth):
        if self.opaque_body(I, b):
            return False
        if b.crate is self.F.core:
            return True
        return None

    # -- events
    def push(self, st, *ev):
        st.mon = (st.mon[0], st.mon[1] + (ev,))

    def ev(self, st):
        return st.mon[1]

    def stop(self, st, why):
        self.ends.append((st, why))
        return [(st, DIVERGE)]

    # -- code pointer
    def call(self, I, st, fn, args, info):
        n, p = fn.get('n') or '', fn.get('p') or ''
        if n == 'as_ptr' and len(args) == 1:
            v = I.deepval(st, args[0])
            if v is self.code or v.op == 'agg' and v.args[0] == 'vec' and v.args[2] == self.code.args[2]:
                return [(st, T('pure', 'at', CODE, I_(0)))]
        if n in ('add', 'offset', 'wrapping_add') and 'ptr' in p and len(args) == 2:
            return [(st, ptr_add(args[0], args[1]))]
        if n in ('offset_from', 'sub_ptr', 'offset_from_unsigned') and len(args) == 2 and all(self.pos(I, st, x) is not None for x in args):
            return [(st, I_(self.pos(I, st, args[0]) - self.pos(I, st, args[1])))]
        if n == 'sub' and 'ptr' in p and len(args) == 2 and args[1].op == 'c':
            return [(st, ptr_add(args[0], I_(-args[1].args[1])))]
        if n == 'sub' and 'ptr' in p and len(args) == 2:
            x = args[1]
            while x.op == 'cast' or x.op == 'pure' and 'cast' in str(x.args[0]):
                x = x.args[-1]
            if self.pos(I, st, x) is not None and self.pos(I, st, args[0]) is not None:
                return [(st, I_(self.pos(I, st, args[0]) - self.pos(I, st, x)))]
        if n == 'cast' and 'ptr' in p:
            return [(st, args[0])]
        if n in ('read', 'read_unaligned') and 'ptr' in p and len(args) == 1:
            return self.read_code(I, st, args[0], info)
        r = self.model(I, st, fn, args, info)
        if r is not None:
            return r
        r = EmitMon.call(self, I, st, fn, args, info)
        if r is not None:
            return r
        r = KeyMon.call(self, I, st, fn, args, info)
        if r is not None and len(r) > 1 and not self.fork_errors:
            g = [(s, v) for s, v in r if not (v.op == 'agg' and v.args[0] == RESULT and v.args[1] == 1)]
            return g or r
        return r

    def pos(self, I, st, t):
        if t.op == 'pure' and t.args[0] == 'at' and t.args[1] is CODE and t.args[2].op == 'c':
            return t.args[2].args[1]
        return None

    def read_code(self, I, st, ptr, info):
        k = self.pos(I, st, ptr)
        if k is None:
            if info.body.crate.types[info.destty].get('adt') == self.dbop:
                self.push(st2 := st.copy(), 'bad', 'instruction fetched at an address that is not a position in the program: %s' % show(ptr)[:120])
                return self.stop(st2, 'bad')
            return None
        ty = info.body.crate.types[info.destty]
        bs = [x.args[1] for x in self.code.args[2]]
        if ty.get('adt') == self.dbop:
            self.fetches += 1
            if k >= len(bs):
                self.push(st2 := st.copy(), 'bad', 'instruction fetched past the end of the program')
                return self.stop(st2, 'bad')
            for i, v in enumerate(self.F.adts[self.dbop]['v']):
                if v[1] == bs[k]:
                    st = st.copy()
                    st.mon = (k, st.mon[1])
                    self.ops_seen.add(v[0])
                    if DEBUG: print(k, v[0], len(st.mon[1]), [e[0] for e in st.mon[1]][-4:], flush=True)
                    return [(st, T('agg', self.dbop, i, ()))]
            self.push(st2 := st.copy(), 'bad', 'byte %d of the program, %d, is not an instruction' % (k, bs[k]))
            return self.stop(st2, 'bad')
        w = engine.INT_BITS.get(ty['s'])
        if w is None:
            return None
        w //= 8
        if k + w > len(bs):
            self.push(st2 := st.copy(), 'bad', 'operand read past the end of the program')
            return self.stop(st2, 'bad')
        return [(st, I_(sum(bs[k + i] << 8 * i for i in range(w))))]

    # -- values
    def model(self, I, st, fn, args, info):
        n, p = fn.get('n') or '', fn.get('p') or ''
        crate = info.body.crate
        if (fn.get('tr') or '').endswith('VmExternalFunc') and n != 'name':
            return self.stage(I, st, n, args, info)
        if (fn.get('tr') or '').endswith('UpdateOperator') and n != 'name' and len(args) == 2:
            return self.update(I, st, args, info)
        if len(args) == 1:
            b = I.resolve(st, fn, args)
            if b is not None and b.id in self.splitters:
                return self.split(I, st, args, info)
        if n == 'from_slice' and len(args) == 1:
            return self.candidate(I, st, info)
        b = I.resolve(st, fn, args) if len(args) == 2 else None
        if b is not None and b.id in self.value_cmp:
            return self.compare(I, st, args, info)
        if n in ('eq', 'ne') and len(args) == 2 and info.argtys:
            t = [re.sub(r"&('\w+ )?", '', crate.types[x]['s']) for x in info.argtys]
            if all(x in ('bson::Bson', 'bson::bson::Bson') for x in t):
                return self.equal(I, st, args, info, n == 'ne')
            x, y = (I.deepval(st, a) for a in args)
            if is_key(x) != is_key(y):
                outs = []
                for o in (0, 1):
                    s = st.copy()
                    self.push(s, 'keycmp', x, y, o)
                    outs.append((s, I_(int((o == 0) == (n == 'eq')))))
                return outs
        if n in ('cmp', 'partial_cmp') and len(args) == 2:
            x, y = (I.deepval(st, a) for a in args)
            if not (x.op == 'c' and y.op == 'c') and not self.is_bson(crate, info):
                outs = []
                for i in range(3):
                    s = st.copy()
                    self.push(s, 'keycmp', x, y, i - 1)
                    o = T('agg', 'core::cmp::Ordering', i, ())
                    outs.append((s, o if n == 'cmp' else mk_some(o)))
                return outs if n == 'cmp' or True else None
        if n == 'starts_with' and len(args) == 2:
            outs = []
            for v in (1, 0) if self.storage_ends else (1,):
                s = st.copy()
                self.push(s, 'prefix', I.deepval(st, args[0]), I.deepval(st, args[1]), v)
                outs.append((s, I_(v)))
            return outs
        if n == 'build' and 'egex' in p:
            return [(st, mk_ok(T('pure', 'regex', *[I.deepval(st, a) for a in args])))]
        if n in ('is_match', 'is_match_at') and args:
            outs = []
            for v in (1, 0):
                s = st.copy()
                self.push(s, 'match', I.deepval(st, args[0]), I.deepval(st, args[1]), v)
                outs.append((s, I_(v)))
            return outs
        return None

    # -- pipeline stages: any function from inputs to 'nothing' or a value; after an input that is not the end, it is completed
    def stage(self, I, st, n, args, info):
        f = I.deepval(st, args[0], 12)
        if n == 'call':
            a = I.deepval(st, args[1], 12)
            if a.op == 'agg' and a.args[2]:
                a = a.args[2][-1]
            end = a is bson('Null')
            sadt = [x for x in self.F.adts if x.endswith('::VmExternalFuncStatus')]
            if len(sadt) != 1:
                raise Missing('the outcome of a pipeline stage')
            names = [v[0] for v in self.F.adts[sadt[0]]['v']]
            cnt = sum(1 for e in self.ev(st) if e[0] == 'stage' and e[1] is f)
            outs = []
            for i, v in enumerate(names):
                s = st.copy()
                out = bson('Document', T('par', 'out%d-%d' % (self.funcs_seen.setdefault(f, len(self.funcs_seen)), cnt))) if v == 'Next' else None
                self.push(s, 'stage', f, a, out)
                outs.append((s, mk_ok(T('agg', sadt[0], i, (out,) if out is not None else ()))))
            return outs
        if n == 'is_completed':
            mine = [e for e in self.ev(st) if e[0] == 'stage' and e[1] is f]
            ends = sum(1 for e in mine if e[2] is bson('Null'))
            if not mine:
                return [(st, I_(0))]
            if ends == 0 or mine[-1][3] is None:
                return [(st, I_(1))]
            outs = []
            for v in (1, 0) if ends < self.max_ends else (1,):
                s = st.copy()
                self.push(s, 'completed', f, v)
                outs.append((s, I_(v)))
            return outs
        return None

    # -- update operators: any function that changes the other fields of the document, or nothing
    def update(self, I, st, args, info):
        f = I.deepval(st, args[0], 12)
        old = I.deepval(st, args[1], 12)
        t = info.body.crate.types
        adts = [t[x].get('adt') for x in t[info.destty].get('a', ())][:1]
        if not adts or adts[0] not in self.F.adts:
            raise Missing('the result of an update operator')
        fields = [x[0] for x in self.F.adts[adts[0]]['v'][0][2]]
        items = doc_items(old.args[2][0] if old.op == 'agg' and len(old.args[2]) == 1 else old)
        if items is None or fields != ['updated']:
            raise Missing('the update of a document with known fields')
        n = sum(1 for e in self.ev(st) if e[0] == 'update')
        outs = []
        for v in (1, 0):
            s = st.copy()
            new = old
            if v:
                new = doc(*[(k.args[1], x if k.args[1] == '_id' else bson('ObjectId', T('par', 'new%d-%s' % (n, k.args[1])))) for k, x in items])
                r, p = I.deref_loc(args[1])
                new = bson('Document', new) if old.op == 'agg' else new
                I.store(s, r, p, new)
            self.push(s, 'update', f, old, v, new)
            outs.append((s, mk_ok(T('agg', adts[0], 0, (I_(v),)))))
        return outs

    # -- an index key split into its parts
    def split(self, I, st, args, info):
        k = len([e for e in self.ev(st) if e[0] == 'split'])
        pk = T('par', 'entry-pkey%d' % k)
        st = st.copy()
        raw = I.deepval(st, args[0])
        self.push(st, 'split', raw, pk)
        ix = next((e[2] for e in reversed(self.ev(st)) if e[0] == 'prefix' and e[3] and is_key(e[2])), None)
        es = tuple(elems(ix)) if ix is not None else tuple(T('par', 'seg%d' % i) for i in range(4))
        return [(st, mk_ok(T('agg', 'vec', 0, es + (pk,))))]

    def is_bson(self, crate, info):
        return False

    def candidate(self, I, st, info):
        st = st.copy()
        k = sum(1 for e in self.ev(st) if e[0] == 'cand')
        if k >= self.max_cands:
            return self.stop(st, 'more')
        self.push(st, 'cand', k)
        return [(st, mk_ok(self.cands[min(k, len(self.cands) - 1)]))]

    def known(self, st, kind, a, b):
        for e in self.ev(st):
            if e[0] == kind and e[1] is a and e[2] is b:
                return e[3]
        return None

    def compare(self, I, st, args, info):
        a, b = (strip(I.deepval(st, x)) for x in args)
        outs = []
        o = self.known(st, 'cmp', a, b)
        x, y = literal(a), literal(b)
        if x is not None and y is not None and a.args[1] == b.args[1]:
            return [(st, mk_ok(T('agg', 'core::cmp::Ordering', (x > y) - (x < y) + 1, ())))]
        for i in ((-1, 0, 1) if o is None else (o,)):
            s = st.copy()
            if o is None:
                self.push(s, 'cmp', a, b, i)
            outs.append((s, mk_ok(T('agg', 'core::cmp::Ordering', i + 1, ()))))
        return outs

    def equal(self, I, st, args, info, ne):
        a, b = (strip(I.deepval(st, x)) for x in args)
        if a is b:
            return [(st, I_(0 if ne else 1))]
        if a.op == 'agg' and b.op == 'agg' and a.args[1] != b.args[1]:
            return [(st, I_(1 if ne else 0))]
        o = self.known(st, 'eq', a, b)
        outs = []
        for v in ((1, 0) if o is None else (o,)):
            s = st.copy()
            if o is None:
                self.push(s, 'eq', a, b, v)
            outs.append((s, I_(1 - v if ne else v)))
        return outs

    def ffi(self, I, st, name, args, info):
        r = KeyMon.ffi(self, I, st, name, args, info)
        return r[:1] if r and name == VALID and not self.storage_ends else r

    def on_key(self, I, st, rest, name, args, k, val, outcome, info):
        return rest + (('ffi', name, k, val, outcome),)

    ops_seen = set()


def literal(t):
    """The number a value holds, when it is a known constant."""
    if t.op == 'agg' and len(t.args[2]) == 1 and t.args[2][0].op == 'c' and isinstance(t.args[2][0].args[1], (int, float)):
        return t.args[2][0].args[1]
    return None


COMPOUND = ('Document', 'Array', 'RegularExpression')


def scalars(terms, kinds=COMPOUND):
    """Fact: these values are of none of the compound kinds."""
    def f(I, st):
        for t in terms:
            for k in kinds:
                I.exclude(st, mk_disc(t), engine.ADT_VARIANTS[BS][bson_variant(k)][1])
    return f


def pars(*ts):
    out, work, seen = set(), list(ts), set()
    while work:
        t = work.pop()
        if isinstance(t, tuple):
            work.extend(t)
        elif isinstance(t, Term) and t not in seen:
            seen.add(t)
            if t.op == 'par':
                out.add(t)
            work.extend(t.args)
    return out


def vref(v):
    return T('ref', T('V', v), ())


def machine(F, program, cands, cls=MachineMon, facts=(), **kw):
    """A fresh machine on the program: (monitor, state, self reference)."""
    mon = cls(F, program, cands)
    pins = kw.pop('pins', ())
    for k, v in kw.items():
        setattr(mon, k, v)
    mon.ops_seen = set()
    I = Interp(F, mon)
    I.pin = (T('par', 'vm'),) + tuple(sorted(pars(program, *cands, *pins), key=str))
    new = [b for b in F.core.bodies if b.promoted is None and b.kind == 'AssocFn' and b.argc >= 2
           and adt_named(F, 'SubProgram').rsplit('::', 1)[-1] in [ty_s(b, i).rsplit('::', 1)[-1] for i in range(1, b.argc + 1)]
           and ty_s(b, 0).rsplit('::', 1)[-1] == adt_named(F, 'VM').rsplit('::', 1)[-1]]
    if len(new) != 1:
        raise Missing('the constructor of the machine (found %d)' % len(new))
    new = new[0]
    args = [program if ty_s(new, i).endswith('SubProgram') else T('par', 'arg%d' % i) for i in range(1, new.argc + 1)]
    st = St()
    st.mon = (0, ())
    for f in facts:
        f(I, st)
    cid = I.ctx(None, 0, new)
    outs = I.run(new, args, st, cid)
    if len(outs) != 1:
        raise Missing('a machine for the program: %d ways to construct it' % len(outs))
    s, v = outs[0]
    root = T('D', T('par', 'vm'))
    s.mem[root] = I.deepval(s, v, 12)
    if DEBUG: print([show(x)[:100] for x in s.mem[root].args[2]])
    return I, mon, s, root


def run_machine(F, program, cands, cls=MachineMon, rows=3, **kw):
    """All abstract executions: [(events, why, state)]; why in halt, err, more, bad, rows."""
    I, mon, st, root = machine(F, program, cands, cls, **kw)
    body = vm_execute(F)
    vm = adt_named(F, 'VM')
    names = [f[0] for f in F.adts[vm]['v'][0][2]]
    sadt, si = None, None
    for i, f in enumerate(F.adts[vm]['v'][0][2]):
        ft = field_adt(F, vm, i)
        if ft and ft.endswith('VmState'):
            sadt, si = ft, i
    if sadt is None:
        raise Missing('the state of the machine')
    vnames = [v[0] for v in F.adts[sadt]['v']]
    done = []
    work = [(st, 0)]
    while work:
        s, r = work.pop()
        mon.ends = []
        cid = I.ctx(None, 0, body)
        outs = I.run(body, [T('par', 'vm')], s, cid)
        for s2, why in mon.ends:
            done.append((mon.ev(s2), why, s2))
        for s2, v in outs:
            k = result_kind(v, s2, I)
            v0 = proj(I.load(s2, root), ('f', None, si))
            state = vnames[v0.args[1]] if v0.op == 'agg' else None
            if k == 'err':
                done.append((mon.ev(s2) + (('error', I.deepval(s2, v)),), 'err', s2))
            elif state == 'HasRow':
                vm_v = I.load(s2, root)
                s2 = s2.copy()
                mon.push(s2, 'row', top_of_stack(F, I, s2, vm_v))
                if r + 1 >= rows:
                    done.append((mon.ev(s2), 'rows', s2))
                else:
                    work.append((s2, r + 1))
            else:
                done.append((mon.ev(s2), 'halt' if state == 'Halt' else 'state %s' % state, s2))
    return I, mon, done, root


def field_adt(F, adt, i):
    for c in F.crates.values():
        if adt in c.adts:
            return c.types[c.adts[adt]['v'][0][2][i][1]].get('adt')
    return None


def top_of_stack(F, I, st, vm):
    adt = adt_named(F, 'VM')
    for i, f in enumerate(F.adts[adt]['v'][0][2]):
        v = proj(vm, ('f', None, i))
        if f[0] == 'stack' and v.op == 'agg' and v.args[2]:
            return I.deepval(st, v.args[2][-1])
    return None


_compiled = {}


def compile_program(F, pat, args, facts=()):
    """The programs a compile function can produce for these arguments: [(state, result kind, program or error)]."""
    b = one(F, pat)
    I, mon, outs = run_emit(F, b, args, facts)
    res = []
    for s, r in outs:
        k = result_kind(r, s, I)
        v = I.deepval(s, r, 14)
        res.append((s, k, v.args[2][0] if v.op == 'agg' and v.args[2] else v))
    return I, mon, res
