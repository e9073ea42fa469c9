"""Shared machinery of the checks: call graph, storage-engine (FFI) model, entry points, the VM boundary."""
from engine import *
import engine
from facts import norm

COMMIT, ROLLBACK = 'rocksdb_transaction_commit', 'rocksdb_transaction_rollback'
PUT, DELETE = 'rocksdb_transaction_put', 'rocksdb_transaction_delete'
BEGIN = 'rocksdb_transaction_begin'
WRITES = (PUT, DELETE)


class Missing(Exception):
    """An anchor of a check is not in the source any more."""


# ------------------------------------------------------------------ call graph
def fn_consts(body):
    """Every function constant in a body with its block: (fn description, block, is_callee)."""
    def ops(x):
        if isinstance(x, dict):
            if 'k' in x and isinstance(x['k'], dict) and 'fn' in x['k']:
                yield x['k']['fn']
            return
        if isinstance(x, (list, tuple)):
            for y in x:
                yield from ops(y)
    for bb, blk in enumerate(body.blocks):
        for s in blk['s']:
            for f in ops(s):
                yield f, bb, False
        t = blk['t']
        if t[0] == 'call':
            if 'k' in t[1] and 'fn' in t[1]['k']:
                yield t[1]['k']['fn'], bb, True
            for f in ops(t[2]):
                yield f, bb, False


class CallGraph:
    def __init__(self, F):
        self.F = F
        self.out, self.inn = {}, {}
        for b in list(F.by_id.values()) + list(F.ext.values()):
            s = set()
            for f, bb, callee in fn_consts(b):
                if f.get('rk') == 'item':
                    s.add(f['r'])
                else:
                    s.add(f['d'])
                    if f.get('r'):
                        s.add(f['r'])
                    for c, im, ii in F.impls_of.get(f['d'], ()):
                        s.add(ii)
                if f['n'].startswith('rocksdb_'):
                    s.add(f['n'])
            for x in b.blocks:
                for st in x['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] in ('closure', 'coroutine'):
                        s.add(st[2][1][1])
            self.out[b.id] = s
            for y in s:
                self.inn.setdefault(y, set()).add(b.id)

    def callers(self, targets):
        """Ids of all functions from which one of the targets (ids or FFI names) can be reached."""
        seen, todo = set(), list(targets)
        while todo:
            x = todo.pop()
            for y in self.inn.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def reach(self, roots, stop=()):
        seen, todo = set(roots), list(roots)
        while todo:
            x = todo.pop()
            if x in stop:
                continue
            for y in self.out.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def path(self, src, targets, stop=()):
        """A shortest call path from src to one of targets, as a list of ids."""
        prev, todo = {src: None}, [src]
        while todo:
            nxt = []
            for x in todo:
                if x in targets:
                    p = []
                    while x is not None:
                        p.append(x)
                        x = prev[x]
                    return p[::-1]
                if x in stop:
                    continue
                for y in sorted(self.out.get(x, ()), key=str):
                    if y not in prev:
                        prev[y] = x
                        nxt.append(y)
            todo = nxt
        return None


_cg = {}


def callgraph(F):
    if id(F) not in _cg:
        _cg[id(F)] = CallGraph(F)
    return _cg[id(F)]


def nm(F, i):
    b = F.by_id.get(i)
    return b.np if b is not None else i


# ------------------------------------------------------------------ anchors
def one(F, pat, crate='polodb_core'):
    l = F.find(pat, crate)
    if len(l) != 1:
        raise Missing('expected exactly one function matching %s, found %d' % (pat, len(l)))
    return l[0]


def memo(f):
    """Remembers the result of f(F, ...) for a set of facts."""
    def g(F, *a):
        c = F.__dict__.setdefault('_memo', {})
        k = (f.__name__,) + a
        if k not in c:
            c[k] = f(F, *a)
        return c[k]
    g.__name__ = f.__name__
    return g


@memo
def vm_execute(F):
    return one(F, r'vm::vm::.*VM::execute|vm::.*::VM::execute|.*VM::execute')


@memo
def adt_named(F, name, crate='polodb_core'):
    l = [k for k in F.adts if k.rsplit('::', 1)[-1] == name and k.startswith(crate)]
    if len(l) != 1:
        raise Missing('expected exactly one type named %s in %s, found %r' % (name, crate, l))
    return l[0]


def ty_s(body, i=0):
    """Pretty type of local i of a body."""
    t = body.crate.types[body.locals[i]]
    return t['s']


# ------------------------------------------------------------------ results
OPTION, RESULT, POLL = 'core::option::Option', 'core::result::Result', 'core::task::poll::Poll'


def result_kind(v, st=None, I=None):
    """'ok', 'err' or None for a value of Result type under the facts of st."""
    if v.op == 'agg' and v.args[0] == RESULT:
        return 'ok' if v.args[1] == 0 else 'err'
    if st is not None:
        k = I.known(st, mk_disc(v))
        if k is not None:
            return 'ok' if k == 0 else 'err'
    return None


def mk_ok(v):
    return T('agg', RESULT, 0, (v,))


def mk_err(v):
    return T('agg', RESULT, 1, (v,))


def mk_some(v):
    return T('agg', OPTION, 1, (v,))


NONE = T('agg', OPTION, 0, ())


# ------------------------------------------------------------------ storage engine model
class StorageMon(Monitor):
    """Gives the foreign functions of the storage engine their meaning; subclasses see them as events."""
    weight_limit = 60
    exit_limit = 1
    join_limit = 8
    err_detail = False
    fork_errors = True          # every function with an error out-parameter may fail

    def __init__(self, F):
        self.F = F
        self.cg = callgraph(F)
        self.events = {}
        self.viol = {}
        self.relevant = self.cg.callers(self.relevant_events())
        self.exec_body = vm_execute(F)

    def relevant_events(self):
        return (PUT, DELETE, COMMIT, ROLLBACK)

    def violation(self, key, msg, I=None, st=None):
        if key not in self.viol:
            self.viol[key] = (msg, I.trace(st) if I is not None and st is not None else [])

    # -- what subclasses override
    def ffi(self, I, st, name, args, info):
        """An FFI call that is about to happen. May change st.mon in place; may return a list of (st, value)."""
        return None

    def ffi_result(self, I, st, name, args, info, failed):
        """Called on the state after the call; failed says whether it reported an error."""
        return None

    def vm_exec(self, I, st, vm, args, info):
        return None

    def opaque_body(self, I, body):
        return False

    # -- dispatch
    def inline(self, I, b, depth):
        if self.opaque_body(I, b):
            return False
        if b is self.exec_body:
            return False
        if b.id in self.relevant:
            return True
        return None

    def call(self, I, st, fn, args, info):
        n = fn.get('n') or ''
        if n.startswith('rocksdb_'):
            self.events[n] = self.events.get(n, 0) + 1
            return self.do_ffi(I, st, n, args, info)
        if n == 'is_null' and len(args) == 1:
            return [(st, mk_eq(args[0], I_(0)))]
        if n in ('null', 'null_mut') and not args:
            return [(st, I_(0))]
        b = I.resolve(st, fn, args)
        if b is self.exec_body:
            self.events['VM::execute'] = self.events.get('VM::execute', 0) + 1
            r = self.vm_exec(I, st, I.read(st, args[0]), args, info)
            if r is not None:
                return r
        return self.call2(I, st, fn, b, args, info)

    def call2(self, I, st, fn, b, args, info):
        return None

    def do_ffi(self, I, st, n, args, info):
        r = self.ffi(I, st, n, args, info)
        if r is not None:
            return r
        crate = info.body.crate
        ret = T('call', n, info.sid, 0, *[a for a in args])
        errarg = None
        st = st.copy()
        for i, a in enumerate(args):
            ty = crate.types[info.argtys[i]] if i < len(info.argtys or ()) else None
            s = ty['s'] if ty else ''
            if s in ('*mut *mut i8', '*mut *mut u8', '*mut *mut libc::c_char', '*mut *mut std::ffi::c_char'):
                errarg = a
            elif s == '*mut usize':
                r0, p = I.deref_loc(a)
                I.store(st, r0, p, T('hav', info.sid, 0, i))
        # a creation function may not return null here: the null case is asserted away by the wrappers
        outs = []
        if errarg is None:
            self.ffi_result(I, st, n, args, info, False)
            return [(st, ret)]
        good = st.copy()
        # an untouched error pointer keeps its value (null when the caller initialised it)
        self.ffi_result(I, good, n, args, info, False)
        outs.append((good, ret))
        if self.fork_errors:
            bad = st.copy()
            r0, p = I.deref_loc(errarg)
            e = T('call', n + '/error', info.sid, 0)
            I.store(bad, r0, p, e)
            I.assume(bad, mk_eq(e, I_(0)), 0)
            self.ffi_result(I, bad, n, args, info, True)
            outs.append((bad, I_(0) if n.endswith(('_get', '_get_for_update', '_open')) else ret))
        return outs


# ------------------------------------------------------------------ programs of the VM
def ops_emitted(F):
    """fn id -> set of opcode variants that occur as constants in it or in what it can call."""
    cg = callgraph(F)
    dbop = adt_named(F, 'DbOp')
    names = [v[0] for v in F.adts[dbop]['v']]
    own = {}
    for b in F.core.bodies:
        s = set()
        for blk in b.blocks:
            for st in blk['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1] == dbop:
                    s.add(names[st[2][1][2]])
            for s_, n_ in _const_ops(blk, b.crate, dbop, names):
                s.add(n_)
        if s:
            own.setdefault(b.id, set()).update(s)
    return cg, own, names


def _const_ops(blk, crate, dbop, names):
    def walk(x):
        if isinstance(x, dict):
            if 'k' in x and isinstance(x['k'], dict):
                k = x['k']
                t = k.get('t')
                if isinstance(t, int) and crate.types[t].get('adt') == dbop and 'i' in k:
                    yield 0, names[int(k['i'])]
            return
        if isinstance(x, (list, tuple)):
            for y in x:
                yield from walk(y)
    for s in blk['s']:
        yield from walk(s)
    yield from walk(blk['t'])


def _returns_program(b):
    t = b.crate.types[b.locals[0]]
    if t.get('k') != 'adt':
        return False
    if t['adt'].rsplit('::', 1)[-1] == 'SubProgram':
        return True
    return t['adt'] == RESULT and t['s'].split('<', 1)[-1].split(',')[0].rstrip('>').rsplit('::', 1)[-1] == 'SubProgram'


@memo
def program_ops(F):
    """For each function that builds a SubProgram: the opcodes it can emit."""
    cg, own, names = ops_emitted(F)
    execb = vm_execute(F)
    out = {}
    for b in F.core.bodies:
        if b.promoted is None and b.kind != 'closure' and _returns_program(b):
            s = set()
            for i in cg.reach([b.id], stop={execb.id}):
                s |= own.get(i, set())
            if s:
                out[b.id] = s
    return out, names


def field_ty(F, f, crate='polodb_core'):
    """Last path segment of the type of an ADT field."""
    t = F.crates[crate].types[f[1]]
    return t['adt'].rsplit('::', 1)[-1] if t.get('k') == 'adt' else t['s']
