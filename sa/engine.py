"""Path-sensitive abstract interpretation of MIR.

Values are interned terms. A state is (memory, facts, monitor state); memory maps roots (locals, heap cells, cells
behind unknown pointers) to value trees, facts are what the branches taken say about discriminants and booleans.
States are deduplicated at join points after garbage collection; values made in earlier iterations of a loop are
collapsed to one age at its back edge, and a block that keeps receiving new states is widened by joining them, so the
analysis terminates. Nothing is executed and no solver is involved: a branch is pruned only when a recorded fact
decides it syntactically.
"""
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ('op', 'args', 'n', 'atoms', 'depth', 'roots', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()
ATOM_OPS = {'par', 'call', 'hav', 'wid', 'undef'}
ROOT_OPS = {'L', 'H', 'D', 'S', 'P', 'V'}


def _collect(a, atoms, roots):
    d = 0
    for x in a:
        if isinstance(x, Term):
            atoms |= x.atoms
            roots |= x.roots
            if x.op in ROOT_OPS:
                roots.add(x)
            d = max(d, x.depth)
        elif isinstance(x, tuple):
            d = max(d, _collect(x, atoms, roots))
    return d


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.n = op, args, len(_tab)
        if op in ('c', 'fn'):
            t.atoms = t.roots = _EMPTY
            t.depth = 0
        else:
            at, ro = set(), set()
            t.depth = _collect(args, at, ro) + 1
            if op in ATOM_OPS:
                at.add(t)
            t.atoms, t.roots = frozenset(at), frozenset(ro)
        _tab[k] = t
    return t


def I_(v):
    return T('c', 'i', int(v))


def S_(s):
    return T('c', 's', s)


UNIT = T('agg', 'tuple', 0, ())
TRUE, FALSE = I_(1), I_(0)
UNDEF = T('undef', 0)
DIVERGE = object()


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 7:
        return '…'
    o, a = t.op, t.args
    if o == 'c':
        return repr(a[1])
    if o == 'fn':
        return 'fn:' + FNS[a[0]]['p']
    if o == 'agg':
        nm = a[0].rsplit('::', 1)[-1] if isinstance(a[0], str) else str(a[0])
        v = ADT_VARIANTS.get(a[0])
        if v and len(v) > 1:
            nm = v[a[1]][0]
        return '%s{%s}' % (nm, ', '.join(show(x, d + 1) for x in a[2]))
    if o == 'ref':
        return '&' + show(a[0], d + 1) + ''.join('.' + elem_s(e) for e in a[1])
    if o == 'call':
        return '%s@%d%s(%s)' % (a[0].rsplit('::', 1)[-1], a[1], "'" if a[2] else '', ', '.join(show(x, d + 1) for x in a[3:]))
    if o == 'fld':
        return '%s.%s' % (show(a[0], d + 1), elem_s(a[1]))
    if o == 'L':
        return '_%d@%d' % (a[1], a[0])
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))


def elem_s(e):
    if e[0] == 'f':
        return ('%s' % e[2]) if e[1] is None else 'v%s.%s' % (e[1], e[2])
    return '[%s]' % show(e[1])


FNS, _fnkey = [], {}
ADT_VARIANTS = {}


def FN(d):
    k = (d['d'], d.get('r'), d.get('p'), str(d.get('ga')), d.get('rself'), d.get('_c'))
    i = _fnkey.get(k)
    if i is None:
        i = _fnkey[k] = len(FNS)
        FNS.append(d)
    return T('fn', i)


def cval(t):
    return t.args[1] if t.op == 'c' else None


def is_c(t):
    return t.op == 'c'


# ---------------------------------------------------------------- term construction
NEG = {'Ne': 'Eq', 'Ge': 'Lt', 'Le': 'Gt'}


def mk_not(t):
    if is_c(t):
        return I_(1 - t.args[1]) if t.args[1] in (0, 1) else T('not', t)
    if t.op == 'not':
        return t.args[0]
    return T('not', t)


def const_eq(a, b):
    """True/False/None"""
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return a.args[1] == b.args[1]
    if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return False
        rs = [const_eq(x, y) for x, y in zip(a.args[2], b.args[2])]
        if len(a.args[2]) != len(b.args[2]) or any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
    return None


def mk_eq(a, b):
    r = const_eq(a, b)
    if r is not None:
        return I_(r)
    if is_c(a) or (not is_c(b) and b.n < a.n):
        a, b = b, a
    if is_c(b) and a.op in ('not', 'eq', 'lt', 'and', 'or', 'ovf') and b.args[1] in (0, 1):
        return a if b.args[1] else mk_not(a)
    return T('eq', a, b)


def mk_lt(a, b):
    if is_c(a) and is_c(b):
        try:
            return I_(a.args[1] < b.args[1])
        except TypeError:
            pass
    if a is b:
        return FALSE
    return T('lt', a, b)


INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64,
            'u128': 128, 'i128': 128}


def wrap(ty, v):
    b = INT_BITS.get(ty)
    if not b:
        return v
    v &= (1 << b) - 1
    if ty[0] == 'i' and v >> (b - 1):
        v -= 1 << b
    return v


def mk_bin(op, a, b):
    if op == 'Eq':
        return mk_eq(a, b)
    if op == 'Ne':
        return mk_not(mk_eq(a, b))
    if op == 'Lt':
        return mk_lt(a, b)
    if op == 'Gt':
        return mk_lt(b, a)
    if op == 'Ge':
        return mk_not(mk_lt(a, b))
    if op == 'Le':
        return mk_not(mk_lt(b, a))
    if op.endswith('WithOverflow'):
        o = op[:-12]
        r = mk_bin(o, a, b)
        return T('agg', 'tuple', 0, (r, FALSE if is_c(r) else T('ovf', o, a, b)))
    if op.endswith('Unchecked'):
        op = op[:-9]
    if is_c(a) and is_c(b) and isinstance(a.args[1], int) and isinstance(b.args[1], int):
        x, y = a.args[1], b.args[1]
        if op == 'Add':
            return I_(x + y)
        if op == 'Sub':
            return I_(x - y)
        if op == 'Mul':
            return I_(x * y)
        if op == 'Div' and y:
            return I_(int(x / y) if (x < 0) != (y < 0) else x // y)
        if op == 'Rem' and y:
            return I_(abs(x) % abs(y) * (1 if x >= 0 else -1))
        if op == 'BitAnd':
            return I_(x & y)
        if op == 'BitOr':
            return I_(x | y)
        if op == 'BitXor':
            return I_(x ^ y)
        if op == 'Shl':
            return I_(x << y)
        if op == 'Shr':
            return I_(x >> y)
    if op == 'BitAnd':
        if a is FALSE or b is FALSE:
            return FALSE
    if op in ('Add', 'Sub', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Offset') and is_c(b) and b.args[1] == 0:
        return a
    if op in ('Add', 'BitOr') and is_c(a) and a.args[1] == 0:
        return b
    if op in ('Add', 'Sub', 'Offset') and is_c(b) and isinstance(b.args[1], int):
        # normalise x + c1 + c2
        c = -b.args[1] if op == 'Sub' else b.args[1]
        if a.op == 'add' and is_c(a.args[1]):
            c += a.args[1].args[1]
            a = a.args[0]
        return T('add', a, I_(c)) if c else a
    if op == 'Add' and is_c(a) and isinstance(a.args[1], int):
        return mk_bin('Add', b, a)
    if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and b.n < a.n:
        a, b = b, a
    return T('bin', op, a, b)


def mk_disc(v):
    if v.op == 'agg':
        vs = ADT_VARIANTS.get(v.args[0])
        if vs:
            return I_(vs[v.args[1]][1])
        return I_(v.args[1])
    if v.op == 'upd':
        return mk_disc(v.args[0])
    return T('disc', v)


def proj(v, e):
    """Project a value by one path element ('f', variant, index) / ('i', term) / ('ie', k)."""
    o = v.op
    if e[0] == 'f':
        if o == 'agg':
            f = v.args[2]
            if e[1] is not None and e[1] != v.args[1]:
                return UNDEF
            return f[e[2]] if e[2] < len(f) else UNDEF
        if o == 'upd':
            for k, x in v.args[1]:
                if k == e:
                    return x
            return proj(v.args[0], e)
        if o == 'ref':
            return v        # Box / Unique / NonNull wrappers of a pointer
        if o == 'undef':
            return v
        return T('fld', v, e)
    if e[0] == 'i':
        if o == 'agg' and is_c(e[1]) and isinstance(e[1].args[1], int):
            f = v.args[2]
            i = e[1].args[1]
            return f[i] if 0 <= i < len(f) else UNDEF
        if o == 'upd':
            for k, x in v.args[1]:
                if k == e:
                    return x
        return T('idx', v, e[1])
    if e[0] == 'ie':       # from the end
        if o == 'agg':
            f = v.args[2]
            return f[len(f) - e[1]] if 0 < e[1] <= len(f) else UNDEF
        return T('idxend', v, I_(e[1]))
    return T('sub', v, e)


def update(v, path, nv):
    if not path:
        return nv
    e, rest = path[0], path[1:]
    sub = update(proj(v, e), rest, nv) if rest else nv
    if v.op == 'agg' and e[0] == 'f' and (e[1] is None or e[1] == v.args[1]) and e[2] < len(v.args[2]):
        f = list(v.args[2])
        f[e[2]] = sub
        return T('agg', v.args[0], v.args[1], tuple(f))
    if v.op == 'agg' and e[0] == 'i' and is_c(e[1]) and 0 <= e[1].args[1] < len(v.args[2]):
        f = list(v.args[2])
        f[e[1].args[1]] = sub
        return T('agg', v.args[0], v.args[1], tuple(f))
    if v.op == 'upd':
        base, ov = v.args
    else:
        base, ov = v, ()
    if e[0] == 'i':
        ov = tuple((k, x) for k, x in ov if k[0] != 'i')
    ov = tuple(sorted([(k, x) for k, x in ov if k != e] + [(e, sub)], key=lambda kx: str(kx[0])))
    return T('upd', base, ov)


def subst_all(x, f):
    """Apply f to every Term inside a nested tuple / frozenset."""
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(subst_all(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst_all(y, f) for y in x)
    return x


def rebuild(t, f):
    """Rebuild a term from mapped children, re-simplifying."""
    a = tuple(subst_all(x, f) for x in t.args)
    if a == t.args:
        return t
    o = t.op
    if o == 'fld':
        return proj(*a)
    if o == 'idx':
        return proj(a[0], ('i', a[1]))
    if o == 'disc':
        return mk_disc(a[0])
    if o == 'eq':
        return mk_eq(*a)
    if o == 'lt':
        return mk_lt(*a)
    if o == 'not':
        return mk_not(*a)
    if o == 'add':
        return mk_bin('Add', *a)
    if o == 'bin':
        return mk_bin(*a)
    if o == 'pure':
        return mk_pure(*a)
    return T(o, *a)


PURE_SIMP = {}


def mk_pure(name, *args):
    s = PURE_SIMP.get(name)
    if s:
        r = s(*args)
        if r is not None:
            return r
    return T('pure', name, *args)


# ---------------------------------------------------------------- control flow
class CFG:
    __slots__ = ('succ', 'pred', 'joins', 'loops', 'back', 'live', 'rpo')


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[3]]
    if k == 'yield':
        return [t[1]]
    return []


def places_of(op):
    if 'c' in op:
        return op['c']
    if 'm' in op:
        return op['m']
    return None


def _uses_place(p, is_def, use):
    if not is_def or len(p) > 1:
        use.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'i':
            use.add(e[1])


def _rv_uses(r, use):
    k = r[0]
    if k in ('use', 'repeat', 'cast'):
        ops = [r[1]]
    elif k == 'bin':
        ops = r[2:4]
    elif k == 'un':
        ops = [r[2]]
    elif k == 'agg':
        ops = r[2]
    elif k in ('ref', 'disc', 'rawptr', 'len', 'cfd'):
        _uses_place(r[1], False, use)
        return
    else:
        ops = [x for x in r[1:] if isinstance(x, dict)]
        for x in r[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int):
                _uses_place(x, False, use)
    for o in ops:
        p = places_of(o)
        if p:
            _uses_place(p, False, use)


def cfg_of(body):
    if body._cfg:
        return body._cfg
    n = len(body.blocks)
    c = CFG()
    c.succ = [succs(b['t']) for b in body.blocks]
    # reachable in depth-first order
    order, seen = [], set()
    stack = [(0, iter(c.succ[0]))]
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(c.succ[v])))
                break
        else:
            order.append(u)
            stack.pop()
    c.rpo = order[::-1]
    idx = {b: i for i, b in enumerate(c.rpo)}
    c.pred = [[] for _ in range(n)]
    for u in c.rpo:
        for v in c.succ[u]:
            c.pred[v].append(u)
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in c.rpo[1:]:
            new = None
            for p in c.pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    c.back, c.loops = {}, {}
    for u in c.rpo:
        for v in c.succ[u]:
            if idx[v] <= idx[u] and dom(v, u):
                c.back[(u, v)] = v
                body_ = c.loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body_:
                        body_.add(x)
                        st.extend(c.pred[x])
    c.joins = {b for b in c.rpo if len(c.pred[b]) > 1} | set(c.loops)
    # liveness
    use, df = [set() for _ in range(n)], [set() for _ in range(n)]
    for b in c.rpo:
        u, d = use[b], df[b]

        def addu(s):
            for x in s:
                if x not in d:
                    u.add(x)
        for s in body.blocks[b]['s']:
            if s[0] == '=':
                x = set()
                _rv_uses(s[2], x)
                _uses_place(s[1], True, x)
                addu(x)
                if len(s[1]) == 1:
                    d.add(s[1][0])
            elif s[0] == 'dead':
                d.add(s[1])
            elif s[0] == 'sd':
                addu({s[1][0]})
        t = body.blocks[b]['t']
        x = set()
        if t[0] == 'switch' or t[0] == 'assert':
            p = places_of(t[1])
            if p:
                _uses_place(p, False, x)
            if t[0] == 'assert' and len(t) > 6:
                for o in t[6]:
                    p = places_of(o)
                    if p:
                        _uses_place(p, False, x)
        elif t[0] == 'call':
            for o in [t[1]] + t[2]:
                p = places_of(o)
                if p:
                    _uses_place(p, False, x)
            _uses_place(t[3], True, x)
        elif t[0] == 'drop':
            _uses_place(t[1], False, x)
        elif t[0] == 'return':
            x.add(0)
        elif t[0] == 'yield':
            x.add(1)
        addu(x)
        if t[0] == 'call' and len(t[3]) == 1:
            pass
    c.live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in reversed(c.rpo):
            out = set()
            for v in c.succ[b]:
                out |= c.live[v]
            t = body.blocks[b]['t']
            if t[0] == 'call' and len(t[3]) == 1:
                out.discard(t[3][0])
            new = use[b] | (out - df[b])
            if new != c.live[b]:
                c.live[b] = new
                ch = True
    body._cfg = c
    return c


# ---------------------------------------------------------------- states
class St:
    __slots__ = ('mem', 'facts', 'mon', 'tr')

    def __init__(self, mem=None, facts=None, mon=None, tr=None):
        self.mem, self.facts, self.mon, self.tr = mem or {}, facts or {}, mon, tr

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.mon, self.tr)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.mon)


class Budget(Exception):
    pass


class Monitor:
    """What a check observes. All hooks may be overridden."""
    init = None
    depth_limit = 40
    weight_limit = 120
    unroll = False
    vec_max = 6
    join_limit = 24
    exit_limit = 6

    err_detail = True

    watch_fields = None         # names of fields on_field is called for when a place goes through them

    def on_field(self, I, st, root, path, place, elem, cid):
        pass

    def shape(self, v):
        return shape(v, 3, self.err_detail)

    def call(self, I, st, fn, args, info):
        """Return None (not interested) or a list of (state, value|DIVERGE)."""
        return None

    def after_call(self, I, st, fn, args, ret, info):
        return None

    def on_drop(self, I, st, ty, root, path, info):
        return None

    def on_assert(self, I, st, kind, ops, info):
        return None

    def on_panic(self, I, st, fn, args, info):
        return None

    def on_return(self, I, st, body, ret):
        return None

    def on_write(self, I, st, root, path, val, info):
        return None

    def join_values(self, x, y):
        return None           # a common upper bound of two different values, if the check knows one

    def inline(self, I, body, depth):
        return None           # None: the default policy


class Info:
    """Where an event happens."""
    __slots__ = ('body', 'bb', 'line', 'cid', 'argtys', 'destty', 'sid', 'I', 'dest')

    def where(self):
        return '%s (%s)' % (self.body.np, self.body.file)


class Interp:
    STEP_LIMIT = 3_000_000

    def __init__(self, facts, mon):
        import models
        self.F, self.mon = facts, mon
        self.ctxs, self.ctxkey = [], {}
        self.sites, self.sitekey = [], {}
        self.steps = 0
        self.stack = []
        self.models = models
        self.aging = {}
        self.pin = ()
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'blocks': 0, 'opaque': {}}
        self.widened = set()
        for k, v in facts.adts.items():
            ADT_VARIANTS[k] = v['v']
        # every visit of a site is its own (loops with a known number of rounds); nothing is merged
        self.unroll = mon.unroll
        self._weight = {}
        self._prom = {}
        self._pcache = {}

    # ---- contexts
    def ctx(self, parent, bb, body):
        if self.unroll:
            self.ctxs.append((parent, bb, body, 0 if parent is None else self.ctxs[parent][3] + 1))
            return len(self.ctxs) - 1
        k = (parent, bb, body.id, body.promoted)
        i = self.ctxkey.get(k)
        if i is None:
            i = self.ctxkey[k] = len(self.ctxs)
            self.ctxs.append((parent, bb, body, 0 if parent is None else self.ctxs[parent][3] + 1))
        return i

    def site(self, cid, bb, k=0):
        key = (cid, bb, k)
        if self.unroll:
            self.sites.append(key)
            return len(self.sites) - 1
        i = self.sitekey.get(key)
        if i is None:
            i = self.sitekey[key] = len(self.sites)
            self.sites.append(key)
        return i

    def site_body(self, sid):
        return self.ctxs[self.sites[sid][0]][2]

    def fresh(self, info, tag='hav', k=0):
        return T(tag, info.sid, 0, k)

    # ---- aging at back edges
    def age_fn(self, cid, head, loop):
        key = (cid, head)
        memo = self.aging.setdefault(key, {})
        ctxs, sites = self.ctxs, self.sites
        depth = ctxs[cid][3]
        sm = {}

        def in_loop(sid):
            r = sm.get(sid)
            if r is None:
                c, bb, _ = sites[sid]
                while ctxs[c][3] > depth:
                    c, bb = ctxs[c][0], ctxs[c][1]
                    if c is None:
                        break
                r = sm[sid] = (c == cid and bb in loop)
            return r

        def f(t):
            r = memo.get(t)
            if r is not None:
                return r
            o = t.op
            if o in ('c', 'fn', 'par', 'L', 'S', 'P'):
                r = t
            elif o == 'call':
                a = tuple(subst_all(x, f) for x in t.args[3:])
                age = 1 if in_loop(t.args[1]) else t.args[2]
                r = T('call', t.args[0], t.args[1], age, *a)
            elif o in ('hav', 'H', 'wid'):
                age = 1 if in_loop(t.args[0]) else t.args[1]
                r = T(o, t.args[0], age, *t.args[2:])
            elif not t.atoms and not t.roots:
                r = t
            else:
                r = rebuild(t, f)
            if r.depth > 40:
                r = T('wid', self.site(cid, head), 1, 'deep')
            memo[t] = r
            return r
        return f

    def age(self, st, cid, head, loop):
        f = self.age_fn(cid, head, loop)
        mem = {}
        for r, v in st.mem.items():
            r2, v2 = f(r), f(v)
            if r2 in mem and mem[r2] is not v2:
                v2 = T('wid', self.site(cid, head), 1, r2)
            mem[r2] = v2
        facts, bad = {}, set()
        for t, v in st.facts.items():
            t2 = f(t)
            if t2.op == 'c':
                continue
            if t2 in facts and facts[t2] != v:
                bad.add(t2)
            facts[t2] = v
        for t in bad:
            del facts[t]
        return St(mem, facts, subst_all(st.mon, f), st.tr)

    # ---- facts
    def known(self, st, t):
        """Constant value of a term under the state's facts, or None."""
        if t.op == 'c':
            return t.args[1]
        neg = False
        while t.op == 'not':
            t, neg = t.args[0], not neg
        f = st.facts.get(t)
        if f is not None and f[0] == '=':
            v = f[1]
            return (1 - v) if neg else v
        if t.op == 'eq':
            a, b = t.args
            va, vb = self._kc(st, a), self._kc(st, b)
            if va is not None and vb is not None:
                r = int(va == vb)
                return 1 - r if neg else r
            if va is not None or vb is not None:
                x, v = (b, va) if vb is None else (a, vb)
                fx = st.facts.get(x)
                if fx is not None and fx[0] == '!' and v in fx[1]:
                    return 1 if neg else 0
        elif t.op == 'lt':
            va, vb = self._kc(st, t.args[0]), self._kc(st, t.args[1])
            if va is not None and vb is not None:
                try:
                    r = int(va < vb)
                    return 1 - r if neg else r
                except TypeError:
                    pass
            # lt(b,a) known true excludes lt(a,b)
            f = st.facts.get(T('lt', t.args[1], t.args[0]))
            if f == ('=', 1):
                return 1 if neg else 0
            f = st.facts.get(mk_eq(t.args[0], t.args[1]))
            if f == ('=', 1):
                return 1 if neg else 0
        return None

    def _kc(self, st, t):
        if t.op == 'c':
            return t.args[1]
        f = st.facts.get(t)
        return f[1] if f is not None and f[0] == '=' else None

    def assume(self, st, t, v):
        """Add t == v to the facts of st (in place). False when contradictory."""
        while t.op == 'not':
            t, v = t.args[0], 1 - v
        k = self.known(st, t)
        if k is not None:
            return k == v
        f = st.facts.get(t)
        if f is not None and f[0] == '!' and v in f[1]:
            return False
        st.facts[t] = ('=', v)
        if t.op == 'eq':
            a, b = t.args
            if is_c(b):
                if v == 1:
                    fa = st.facts.get(a)
                    if fa is not None and fa[0] == '!' and b.args[1] in fa[1]:
                        return False
                    st.facts[a] = ('=', b.args[1])
                else:
                    if not self.exclude(st, a, b.args[1]):
                        return False
            elif v == 1:
                ka, kb = self._kc(st, a), self._kc(st, b)
                if ka is not None and kb is None:
                    st.facts[b] = ('=', ka)
                elif kb is not None and ka is None:
                    st.facts[a] = ('=', kb)
        return True

    def exclude(self, st, t, v):
        while t.op == 'not':
            t, v = t.args[0], 1 - v
        k = self.known(st, t)
        if k is not None:
            return k != v
        f = st.facts.get(t)
        s = (f[1] if f is not None else _EMPTY) | {v}
        if t.op in ('eq', 'lt', 'ovf') or (t.op == 'disc' and False):
            return self.assume(st, t, 1 - v)
        st.facts[t] = ('!', s)
        return True

    # ---- memory
    def root_default(self, r):
        if r.op == 'D':
            return mk_deref(r.args[0])
        if r.op == 'V':
            return r.args[0]
        if r.op == 'S':
            s = self.F.statics.get(r.args[0])
            return S_(s) if s is not None else T('static', r.args[0])
        return UNDEF

    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.root_default(root)
        for e in path:
            v = proj(v, e)
        return v

    def store(self, st, root, path, val):
        if path:
            cur = st.mem.get(root)
            if cur is None:
                cur = self.root_default(root)
            val = update(cur, path, val)
        st.mem[root] = val

    def deref_loc(self, v):
        """Location a pointer value points to."""
        if v.op == 'ref':
            return v.args[0], v.args[1]
        return T('D', v), ()

    def read(self, st, v):
        """The value a pointer points to."""
        r, p = self.deref_loc(v)
        return self.load(st, r, p)

    def place(self, st, p, cid):
        root, path, var = T('L', cid, p[0]), [], None
        names = self.mon.watch_fields
        for e in p[1:]:
            if e == '*':
                v = self.load(st, root, path)
                root, pth = self.deref_loc(v)
                path = list(pth)
                var = None
            elif e[0] == 'f':
                path.append(('f', var, e[1]))
                var = None
                if names is not None and len(e) > 2 and e[2] in names:
                    self.mon.on_field(self, st, root, tuple(path), p, e, cid)
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'i':
                path.append(('i', self.load(st, T('L', cid, e[1]))))
            elif e[0] == 'ci':
                path.append(('ie', e[1]) if e[2] else ('i', I_(e[1])))
            elif e[0] == 'ss':
                path.append(('ss',) + tuple(e[1:]))
        return root, tuple(path)

    def ref_to(self, root, path=()):
        if root.op == 'D' and not path:
            return root.args[0]
        return T('ref', root, tuple(path))

    def operand(self, st, o, cid, crate):
        if 'c' in o:
            r, p = self.place(st, o['c'], cid)
            return self.load(st, r, p)
        if 'm' in o:
            r, p = self.place(st, o['m'], cid)
            return self.load(st, r, p)
        return self.const(st, o['k'], crate)

    def const(self, st, k, crate):
        if 'av' in k:
            return T('agg', crate.types[k['t']]['adt'], k['av'][0], tuple(self.const(st, x, crate) for x in k['av'][1]))
        if 'i' in k:
            return T('c', 'i', k['i'] if isinstance(k['i'], int) else int(k['i']))
        if 's' in k:
            return S_(k['s'])
        if 'fn' in k:
            d = k['fn']
            if '_c' not in d:
                d['_c'] = crate.name
            return FN(d)
        if 'f' in k:
            return T('c', 'f', float(k['f']))
        if 'b' in k:
            return T('c', 'by', bytes(k['b'])) if isinstance(k['b'], list) else T('c', 'i', int(k['b']))
        if 'promoted' in k:
            root = T('P', k['owner'], k['promoted'])
            if root not in st.mem:
                v = self._prom.get(root)
                if v is None:
                    b = crate.promoted.get((k['owner'], k['promoted']))
                    v = T('const', k['owner'], k['promoted'])
                    if b is not None:
                        sub = St()
                        cid = self.ctx(None, -1, b)
                        outs = self.run(b, [], sub, cid)
                        if outs:
                            s2, rv = outs[0]
                            v = self.read(s2, rv) if rv.op == 'ref' else rv
                            for rr in _closure_roots(v, s2):
                                self._pcache.setdefault(root, {})[rr] = s2.mem[rr]
                            if rv.op != 'ref':
                                self._prom[('v', root)] = rv
                    self._prom[root] = v
                st.mem[root] = v
                for rr, vv in self._pcache.get(root, {}).items():
                    st.mem[rr] = vv
            rv = self._prom.get(('v', root))
            if rv is not None:
                return rv
            return T('ref', root, ())
        if 'static' in k:
            return T('ref', T('S', k['static']), ())
        if 'z' in k:
            t = crate.types[k['t']]
            if t['k'] == 'adt':
                return T('agg', t['adt'], 0, ())
            if t['k'] in ('closure', 'coroutine'):
                return T('agg', 'closure:' + t.get('d', '?'), 0, ())
            return UNIT
        if 'def' in k:
            return T('const', k['def'])
        return T('const', crate.ty(k.get('t')), str(k.get('ind', '')))

    # ---- rvalues
    def rvalue(self, st, rv, cid, crate, info):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1], cid, crate)
        if k in ('ref', 'rawptr'):
            r, p = self.place(st, rv[1], cid)
            return self.ref_to(r, p)
        if k == 'cast':
            v = self.operand(st, rv[1], cid, crate)
            kind = rv[3]
            if kind == 'BoxDerefTransmute':
                return v.args[0] if v.op == 'fld' else v
            if kind in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                ty = crate.ty(rv[2])
                if is_c(v) and kind == 'IntToInt' and isinstance(v.args[1], int):
                    return I_(wrap(ty, v.args[1]))
                if v.op == 'cast' and v.args[0] == ty:
                    return v
                if v.op == 'agg':
                    return mk_disc(v)
                if v.op in ('eq', 'lt', 'not'):
                    return v
                return T('cast', ty, v)
            return v
        if k == 'bin':
            return mk_bin(rv[1], self.operand(st, rv[2], cid, crate), self.operand(st, rv[3], cid, crate))
        if k == 'un':
            v = self.operand(st, rv[2], cid, crate)
            if rv[1] == 'Not':
                return mk_not(v)
            if rv[1] == 'Neg':
                return I_(-v.args[1]) if is_c(v) and isinstance(v.args[1], int) else T('neg', v)
            if rv[1] == 'PtrMetadata':
                return mk_len(self.read(st, v) if v.op == 'ref' else v)
            return T('un', rv[1], v)
        if k == 'disc':
            r, p = self.place(st, rv[1], cid)
            return mk_disc(self.load(st, r, p))
        if k == 'agg':
            ops = tuple(self.operand(st, o, cid, crate) for o in rv[2])
            kd = rv[1]
            if kd[0] == 'adt':
                return T('agg', kd[1], kd[2], ops)
            if kd[0] in ('closure', 'coroutine'):
                return T('agg', '%s:%s' % (kd[0], kd[1]), 0, ops)
            if kd[0] == 'rawptr':
                return ops[0]
            return T('agg', kd[0], 0, ops)
        if k == 'repeat':
            return T('rep', self.operand(st, rv[1], cid, crate), str(rv[2]))
        if k == 'len':
            r, p = self.place(st, rv[1], cid)
            return mk_len(self.load(st, r, p))
        if k == 'cfd':
            r, p = self.place(st, rv[1], cid)
            return self.load(st, r, p)
        return T('rv', k, info.sid)

    # ---- garbage collection
    def gc(self, st, cid, live):
        mem = st.mem
        anc = self._anc(cid)
        keep, todo = set(), []
        for r in mem:
            if r.op == 'L':
                c = r.args[0]
                if (c == cid and r.args[1] in live) or (c != cid and c in anc):
                    keep.add(r)
                    todo.append(mem[r])
        atoms = set()
        mr = set()
        _mon_terms(st.mon, atoms, mr)
        _mon_terms(self.pin, atoms, mr)
        for r in mr:
            if r in mem and r not in keep:
                keep.add(r)
                todo.append(mem[r])
            atoms |= r.atoms
        pend = [r for r in mem if r.op == 'D']
        while True:
            while todo:
                v = todo.pop()
                atoms |= v.atoms
                for r in v.roots:
                    if r not in keep:
                        keep.add(r)
                        x = mem.get(r)
                        if x is not None:
                            todo.append(x)
                        atoms |= r.atoms
            np = []
            for r in pend:
                if r in keep:
                    continue
                ra = r.args[0].atoms
                if not ra or not ra.isdisjoint(atoms):
                    keep.add(r)
                    todo.append(mem[r])
                else:
                    np.append(r)
            if len(np) == len(pend) or not todo:
                break
            pend = np
        nm = {r: v for r, v in mem.items() if r in keep}
        nf = {}
        for t, v in st.facts.items():
            ta = t.atoms
            if not ta or ta <= atoms or not ta.isdisjoint(atoms) and _main_atom(t) in atoms:
                nf[t] = v
        st.mem, st.facts = nm, nf
        return st

    def _anc(self, cid):
        s = set()
        c = self.ctxs[cid][0]
        while c is not None:
            s.add(c)
            c = self.ctxs[c][0]
        return s

    def join(self, a, b, cid, bb):
        mem = {}
        for r in set(a.mem) | set(b.mem):
            x, y = a.mem.get(r), b.mem.get(r)
            if x is y:
                mem[r] = x
            elif x is None or y is None:
                if r.op in ('L', 'P'):
                    mem[r] = x if y is None else y
                    if r.op == 'L':
                        mem[r] = self.joinv(x if x is not None else UNDEF, y if y is not None else UNDEF, cid, bb, r)
                else:
                    z = self.root_default(r)
                    mem[r] = self.joinv(x if x is not None else z, y if y is not None else z, cid, bb, r)
            else:
                mem[r] = self.joinv(x, y, cid, bb, r)
        facts = {t: v for t, v in a.facts.items() if b.facts.get(t) == v}
        return St(mem, facts, a.mon, b.tr)

    def joinv(self, x, y, cid, bb, tag):
        if x is y:
            return x
        if x.op == 'undef':
            return y
        if y.op == 'undef':
            return x
        if x.op == 'agg' and y.op == 'agg' and x.args[0] == y.args[0] and x.args[1] == y.args[1] and \
                len(x.args[2]) == len(y.args[2]):
            return T('agg', x.args[0], x.args[1], tuple(
                self.joinv(p, q, cid, bb, (tag, i)) for i, (p, q) in enumerate(zip(x.args[2], y.args[2]))))
        z = self.mon.join_values(x, y)
        if z is not None:
            return z
        self.widened.add((self.ctxs[cid][2].np, bb))
        return T('wid', self.site(cid, bb), 0, _plain(tag))

    # ---- execution
    def run(self, body, args, st, cid):
        """All (exit state, return value) pairs of a function entered with args."""
        L = [T('L', cid, i) for i in range(len(body.locals))]
        for i, a in enumerate(args):
            st.mem[L[i + 1]] = a
        self.stats['functions'].add(body.np)
        self.stack.append((body.id, body.promoted))
        try:
            return self._run(body, st, cid, L)
        finally:
            self.stack.pop()

    def _run(self, body, st, cid, L):
        cfg = cfg_of(body)
        crate = body.crate
        seen = {}
        outs, outkeys = {}, set()
        work = [(0, st, None)]
        while work:
            bb, st, prev = work.pop()
            if self.unroll:
                if bb in cfg.loops and prev is not None:
                    st = self.gc(st, cid, cfg.live[bb])
            elif bb in cfg.joins and prev is not None:
                loop = cfg.loops.get(bb)
                if loop is not None and (prev, bb) in cfg.back:
                    st = self.gc(st, cid, cfg.live[bb])
                    st = self.age(st, cid, bb, loop)
                st = self.gc(st, cid, cfg.live[bb])
                k = st.key()
                ent = seen.setdefault(bb, [set(), {}, 0])
                if k in ent[0]:
                    continue
                ent[0].add(k)
                ent[2] += 1
                if ent[2] > self.mon.join_limit:
                    # results that differ in kind (Ok or Err, ...) are kept apart
                    jk = (st.mon, self.mon.shape(st.mem.get(L[0], UNDEF)))
                    j = ent[1].get(jk)
                    if j is not None:
                        st = self.gc(self.join(j, st, cid, bb), cid, cfg.live[bb])
                        if st.key() == j.key():
                            continue
                    ent[1][jk] = st
                    st = st.copy()
            self.steps += 1
            self.stats['blocks'] += 1
            if self.steps > self.STEP_LIMIT:
                raise Budget('step limit in ' + body.np)
            for nb, ns in self.block(body, bb, st, cid, L, crate):
                if nb is None:
                    st2, rv = ns
                    # leave the frame
                    own = [r for r in st2.mem if r.op == 'L' and r.args[0] == cid]
                    used = self._ret_reach(st2, rv, cid)
                    for r in own:
                        if r not in used:
                            del st2.mem[r]
                    tmp = st2.mem
                    st2.mem = dict(tmp)
                    st2.mem[L[0]] = rv
                    self.gc(st2, cid, {0})
                    rv = st2.mem.pop(L[0])
                    k = (st2.key(), rv)
                    if k not in outkeys:
                        outkeys.add(k)
                        outs.setdefault((st2.mon, self.mon.shape(rv)), []).append((st2, rv))
                else:
                    work.append((nb, ns, bb))
        res = []
        for grp in outs.values():
            if len(grp) > self.mon.exit_limit:
                s0, r0 = grp[0]
                s0 = s0.copy()
                s0.mem[L[0]] = r0
                for s1, r1 in grp[1:]:
                    s1.mem[L[0]] = r1
                    s0 = self.join(s0, s1, cid, -1)
                r0 = s0.mem[L[0]]
                self.gc(s0, cid, {0})
                r0 = s0.mem.pop(L[0])
                res.append((s0, r0))
            else:
                res.extend(grp)
        self.stats['paths'] += len(res)
        return res

    def _ret_reach(self, st, rv, cid):
        """Roots reachable from the return value, or named by other frames' memory."""
        seen, todo = set(), list(rv.roots)
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            v = st.mem.get(q)
            if v is not None:
                todo.extend(v.roots)
        for q, v in st.mem.items():
            if v.roots and not (q.op == 'L' and q.args[0] == cid):
                seen.update(v.roots)
        return seen

    def block(self, body, bb, st, cid, L, crate):
        blk = body.blocks[bb]
        info = Info()
        info.body, info.bb, info.cid, info.I = body, bb, cid, self
        info.sid = self.site(cid, bb)
        info.line = blk.get('ln')
        for s in blk['s']:
            if s[0] == '=':
                v = self.rvalue(st, s[2], cid, crate, info)
                p = s[1]
                if len(p) == 1:
                    st.mem[L[p[0]]] = v
                else:
                    r, path = self.place(st, p, cid)
                    info.line = s[3] if len(s) > 3 else info.line
                    self.mon.on_write(self, st, r, path, v, info)
                    self.store(st, r, path, v)
            elif s[0] == 'sd':
                r, path = self.place(st, s[1], cid)
                v = self.load(st, r, path)
                if v.op == 'agg':
                    self.store(st, r, path, T('agg', v.args[0], s[2], v.args[2]))
                else:
                    self.store(st, r, path, T('hav', info.sid, 0, 'sd'))
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            rv = st.mem.get(L[0], UNIT)
            self.mon.on_return(self, st, body, rv)
            return [(None, (st, rv))]
        if k == 'switch':
            return self.switch(body, t, st, cid, crate, info)
        if k == 'drop':
            info.line = blk.get('ln')
            r, path = self.place(st, t[1], cid)
            outs = self.drop(st, t[2], r, path, info, crate)
            return [(t[3], s) for s in outs]
        if k == 'call':
            info.line = t[6]
            fn = self.operand(st, t[1], cid, crate)
            args = [self.operand(st, a, cid, crate) for a in t[2]]
            info.argtys = t[7] if len(t) > 7 else []
            info.destty = t[8] if len(t) > 8 else None
            info.dest = t[3]
            res = self.call(st, fn, args, info)
            out = []
            for s, v in res:
                if v is DIVERGE or t[4] is None:
                    if v is not DIVERGE:
                        self.mon.on_panic(self, s, fn, args, info)
                    continue
                r, path = self.place(s, t[3], cid)
                if path or r.op != 'L':
                    self.mon.on_write(self, s, r, path, v, info)
                self.store(s, r, path, v)
                out.append((t[4], s))
            return out
        if k == 'assert':
            info.line = t[5]
            c = self.operand(st, t[1], cid, crate)
            ops = [self.operand(st, a, cid, crate) for a in (t[6] if len(t) > 6 else [])]
            kv = self.known(st, c)
            if kv is None or bool(kv) != bool(t[2]):
                self.mon.on_assert(self, st, t[4], ops, info)
            if kv is not None and bool(kv) != bool(t[2]):
                return []
            return [(t[3], st)]
        if k == 'yield':
            r, path = self.place(st, t[2], cid)
            self.store(st, r, path, T('hav', info.sid, 0, 'resume'))
            return [(t[1], st)]
        return []

    def switch(self, body, t, st, cid, crate, info):
        v = self.operand(st, t[1], cid, crate)
        kv = self.known(st, v)
        ts = crate.types[t[4]]['s']
        w = INT_BITS[ts] if ts in INT_BITS and ts[0] == 'i' else 0     # signed: values are listed as bit patterns
        if kv is not None:
            for val, tgt in t[2]:
                if int(val) == kv or w and isinstance(kv, int) and (int(val) - kv) % (1 << w) == 0:
                    return [(tgt, st)]
            return [(t[3], st)] if t[3] is not None else []
        out = []
        vals = [int(x[0]) for x in t[2]]
        if w and v.op != 'disc':
            vals = [x - (1 << w) if x >> (w - 1) & 1 else x for x in vals]
        for val, (_, tgt) in zip(vals, t[2]):
            s = st.copy()
            if self.assume(s, v, int(val)):
                s.tr = (st.tr, body, info.line, v, int(val))
                out.append((tgt, s))
        if t[3] is not None and body.blocks[t[3]]['t'][0] != 'unreachable':
            s = st.copy()
            ok = True
            for val in vals:
                if not self.exclude(s, v, val):
                    ok = False
                    break
            if ok:
                s.tr = (st.tr, body, info.line, v, tuple(vals))
                out.append((t[3], s))
        return out

    # ---- drops
    def drop(self, st, ty, root, path, info, crate):
        r = self.mon.on_drop(self, st, ty, root, path, info)
        return [st] if r is None else r

    # ---- calls
    def call(self, st, fn, args, info):
        self.stats['calls'] += 1
        if fn.op == 'fn':
            d = FNS[fn.args[0]]
            return self.call_fn(st, d, args, info)
        return self.call_value(st, fn, args, info)

    def call_value(self, st, f, args, info):
        """Call a function value (closure, fn item or unknown)."""
        g = f
        n = 0
        while g.op == 'ref' and n < 4:
            g = self.read(st, g)
            n += 1
        if g.op == 'fn':
            return self.call_fn(st, FNS[g.args[0]], args, info)
        if g.op == 'agg' and isinstance(g.args[0], str) and g.args[0].startswith('closure:'):
            body = self.F.by_id.get(g.args[0][8:])
            if body is not None:
                selfty = body.crate.types[body.locals[1]]
                st = st.copy()
                if selfty['k'] == 'ref':
                    if f.op == 'ref' and n == 1:
                        me = f
                    else:
                        if f.op == 'ref':
                            me = f
                            while self.read(st, me).op == 'ref':
                                me = self.read(st, me)
                        else:
                            root = T('H', info.sid, 0, 'clo')
                            st.mem[root] = g
                            me = T('ref', root, ())
                else:
                    me = g
                return self.enter(body, [me] + list(args), st, info)
            return self.opaque(st, g.args[0], args, info)
        r = self.mon.call(self, st, {'p': '<unknown function value>', 'd': '?', 'n': '?', 'val': f}, args, info)
        if r is not None:
            return r
        return self.opaque(st, 'value', [f] + list(args), info)

    def enter(self, body, args, st, info):
        if self.stack.count((body.id, body.promoted)) > (20 if self.unroll else 0) or len(self.stack) > self.mon.depth_limit:
            return self.opaque(st, body.np, args, info)
        cid = self.ctx(info.cid, info.bb, body)
        st = st.copy()
        return self.run(body, args, st, cid)

    def constructor(self, path, args):
        """A tuple variant or tuple struct used as a function."""
        if path in self.F.adts:
            return T('agg', path, 0, tuple(args))
        adt, _, name = path.rpartition('::')
        if adt in self.F.adts:
            for i, v in enumerate(self.F.adts[adt]['v']):
                if v[0] == name:
                    return T('agg', adt, i, tuple(args))
        return None

    def resolve(self, st, d, args):
        """The body a callee description denotes, if it is known."""
        r = d.get('r')
        if r is not None and d.get('rk', 'item') == 'item':
            b = self.F.by_id.get(r)
            if b is not None:
                return b
        b = self.F.by_id.get(d['d'])
        if b is not None and not (b.intrait and d.get('rk') != 'item'):
            if d.get('tr') is None:
                return b
        if d.get('tr') is not None and args:
            # dispatch on the shape of the receiver
            v = args[0]
            n = 0
            while v.op == 'ref' and n < 4:
                v = self.read(st, v)
                n += 1
            if v.op == 'upd':
                v = v.args[0]
            if v.op == 'agg':
                for c, im, ii in self.F.impls_of.get(d['d'], ()):
                    s = c.types[im['self']]
                    if s['k'] == 'adt' and s['adt'] == v.args[0]:
                        return self.F.by_id.get(ii)
        return None

    def call_fn(self, st, d, args, info):
        r = self.mon.call(self, st, d, args, info)
        if r is not None:
            return r
        np = d.get('np')
        if np is None:
            from facts import norm
            np = d['np'] = norm(d['p'])
        m = self.models.MODELS.get(d['d']) or self.models.MODELS.get(np)
        if m is not None:
            r = m(self, st, d, args, info)
            if r is not None:
                return r
        if d['d'].endswith('::{constructor#0}'):
            r = self.constructor(d['d'][:-len('::{constructor#0}')], args)
            if r is not None:
                return [(st, r)]
        b = self.resolve(st, d, args)
        if b is not None:
            pol = self.mon.inline(self, b, len(self.stack))
            if pol is None:
                pol = self.weight(b) <= self.mon.weight_limit
            if pol:
                return self.enter(b, args, st, info)
            return self.opaque(st, b.np, args, info, body=b)
        e = self.F.ext.get(d.get('r') or d['d'])
        if e is not None:
            return self.enter(e, args, st, info)
        if np.endswith(('::call_once', '::call_mut', '::call')) and d.get('tr', '').startswith('core::ops::function'):
            tup = args[1] if len(args) > 1 else UNIT
            aa = list(tup.args[2]) if tup.op == 'agg' else [tup]
            return self.call_value(st, args[0], aa, info)
        return self.opaque(st, np, args, info, d=d)

    def opaque(self, st, name, args, info, d=None, body=None):
        """A call that is not followed: an unknown result; everything behind &mut arguments changes."""
        self.stats['opaque'][name] = self.stats['opaque'].get(name, 0) + 1
        if d is not None and self.models.is_pure(name, d):
            vals = [self.deepval(st, a) for a in args]
            return [(st, mk_pure(name, *vals))]
        ret = T('call', name, info.sid, 0, *args)
        states = [st]
        # closures handed to unknown code may be called
        for a in args:
            g = a
            if g.op == 'ref':
                g = self.read(st, g)
            if g.op == 'agg' and isinstance(g.args[0], str) and g.args[0].startswith('closure:'):
                if self.models.calls_closure(name) and len(self.stack) <= self.mon.depth_limit and name != g.args[0][8:]:
                    b = self.F.by_id.get(g.args[0][8:])
                    if b is not None:
                        extra = []
                        for s in states:
                            na = b.argc - 1
                            ca = [T('call', name + '/arg', info.sid, 0, i) for i in range(na)]
                            for s2, rv in self.call_value(s.copy(), a, ca, info):
                                extra.append(s2)
                        states = states + extra
        self.havoc_args(states, args, info)
        return [(s, ret) for s in states]

    def havoc_args(self, states, args, info):
        crate = info.body.crate
        tys = info.argtys or []
        for i, a in enumerate(args):
            ty = crate.types[tys[i]] if i < len(tys) and isinstance(tys[i], int) else None
            mut = ty is not None and ty['k'] in ('ref', 'ptr') and ty.get('mut')
            if mut:
                r, p = self.deref_loc(a)
                for s in states:
                    self.mon.on_write(self, s, r, p, None, info)
                    self.store(s, r, p, T('hav', info.sid, 0, i))
            elif a.op == 'agg':
                # &mut captured in a closure or struct
                for x in a.args[2]:
                    if isinstance(x, Term) and x.op == 'ref' and isinstance(a.args[0], str) and a.args[0].startswith('closure:'):
                        pass

    def deepval(self, st, v, n=6):
        """A term with the references in it replaced by what they point to (bounded)."""
        if v.op == 'ref' and n:
            if v.args[0].op == 'H' and v.args[0].args[0] == 'keep':
                return v
            return self.deepval(st, self.read(st, v), n - 1)
        if v.op == 'agg' and n and v.args[2]:
            return T('agg', v.args[0], v.args[1], tuple(self.deepval(st, x, n - 1) for x in v.args[2]))
        return v

    def weight(self, b):
        w = self._weight.get(b.id)
        if w is None:
            self._weight[b.id] = 100000       # recursion
            w = len([x for x in b.blocks if not x.get('cl')])
            for x in b.blocks:
                t = x['t']
                if t[0] == 'call' and 'k' in t[1] and 'fn' in t[1]['k']:
                    c = self.F.by_id.get(t[1]['k']['fn'].get('r') or t[1]['k']['fn']['d'])
                    if c is not None:
                        w += self.weight(c)
            self._weight[b.id] = w
        return w

    # ---- diagnostics
    def trace(self, st, n=14):
        out, t = [], st.tr
        while t is not None and len(out) < n:
            prev, body, line, v, val = t
            out.append('%s:%s %s = %s' % (body.file, line, show(v)[:110], val))
            t = prev
        return out[::-1]


def shape(v, d=3, err=True):
    if v.op == 'agg' and d:
        if not err and v.args[0] == 'core::result::Result' and v.args[1] == 1:
            return 'Err'
        return (v.args[0], v.args[1]) + tuple(shape(x, d - 1, err) for x in v.args[2])
    if v.op == 'c' and v.args[1] in (0, 1):
        return v.args[1]
    return '?'


def mk_deref(t):
    return T('deref', t)


def mk_len(v):
    if v.op == 'agg' and v.args[0] in ('array', 'vec'):
        return I_(len(v.args[2]))
    if v.op == 'c' and v.args[0] in ('s', 'by'):
        return I_(len(v.args[1].encode() if v.args[0] == 's' else v.args[1]))
    return T('len', v)


def _plain(x):
    return x if isinstance(x, (Term, str, int)) else tuple(_plain(y) for y in x)


def _mon_terms(x, atoms, roots):
    if isinstance(x, Term):
        atoms |= x.atoms
        roots |= x.roots
        if x.op in ROOT_OPS:
            roots.add(x)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _mon_terms(y, atoms, roots)


def _main_atom(t):
    """The atom a fact is mainly about (a comparison with dead terms is useless)."""
    while t.op in ('disc', 'fld', 'not', 'deref', 'len', 'cast', 'neg', 'idx'):
        t = t.args[0]
    return t


def _closure_roots(v, st):
    seen, todo = set(), list(v.roots)
    while todo:
        r = todo.pop()
        if r in seen or r not in st.mem:
            continue
        seen.add(r)
        todo.extend(st.mem[r].roots)
    return seen
