"""Meaning of standard-library calls for the abstract interpreter. String slices are represented by their content."""
from engine import *

PTRS = ('alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rc::Rc', 'alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc')
import re
import engine

MODELS = {}
OPT, RES = 'core::option::Option', 'core::result::Result'


def some(v):
    return T('agg', OPT, 1, (v,))


NONE = T('agg', OPT, 0, ())


def ok(v):
    return T('agg', RES, 0, (v,))


def err(v):
    return T('agg', RES, 1, (v,))


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ty_of(info, i):
    try:
        return info.body.crate.types[info.argtys[i]]
    except (IndexError, TypeError):
        return {'k': '?', 's': '?'}


def peel(I, st, v, ty, crate):
    """Follow a pointer value through the reference layers its type has."""
    n = 0
    while ty['k'] in ('ref', 'ptr') and n < 6:
        inner = crate.types[ty['a'][0]]
        if inner['k'] == 'str':
            return v
        v = I.read(st, v)
        ty = inner
        n += 1
    while v.op == 'ref' and n < 8:
        v = I.read(st, v)
        n += 1
    return v


def ident(I, st, d, args, info):
    return [(st, args[0])]


# ---------------------------------------------------------------- references, boxes, clones
@m('core::clone::Clone::clone')
def clone(I, st, d, args, info):
    b = I.F.by_id.get(d.get('r') or '')
    if b is not None and b.loc and not derived(b):
        return None
    ty = ty_of(info, 0)
    if ty['k'] == 'ref' and info.body.crate.types[ty['a'][0]]['k'] == 'str':
        return [(st, args[0])]
    return [(st, I.read(st, args[0]))]


def derived(b):
    # derived bodies clone field by field: a copy of the value
    return b.titem == 'core::clone::Clone::clone' and len([x for x in b.blocks if not x.get('cl')]) <= 40


@m('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref',
   'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut',
   'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::string::String::as_str', 'std::string::String::as_mut_str',
   'std::boxed::Box::as_ref', 'alloc::string::String::as_str', 'std::string::String::as_bytes', 'core::str::as_bytes',
   'core::str::<impl str>::as_bytes', 'std::borrow::Cow::as_ref')
def deref(I, st, d, args, info):
    b = I.F.by_id.get(d.get('r') or '')
    if b is not None:
        return None
    ty = ty_of(info, 0)
    crate = info.body.crate
    a = args[0]
    if ty['k'] != 'ref':
        return [(st, a)]
    inner = crate.types[ty['a'][0]]
    if inner['k'] == 'str':
        return [(st, a)]
    s = inner.get('adt', '')
    dst = crate.types[info.destty] if isinstance(info.destty, int) else {'k': '?'}
    tostr = dst['k'] == 'ref' and crate.types[dst['a'][0]]['k'] == 'str'
    if inner['k'] == 'ref' and crate.types[inner['a'][0]]['k'] == 'str':
        return [(st, I.read(st, a))]
    if s == 'alloc::string::String':
        if tostr:
            return [(st, I.read(st, a))]
        return [(st, a)]
    if s in PTRS or 'Guard' in s or s.endswith(('::Ref', '::RefMut')) \
            or s == 'core::pin::Pin':
        v = I.read(st, a)
        if v.op == 'agg' and len(v.args[2]) == 1 and s == 'core::pin::Pin':
            v = v.args[2][0]
        if v.op == 'agg' and v.args[0] == 'guard':
            v = v.args[2][0]
        return [(st, v)]
    if s == 'alloc::vec::Vec' or inner['k'] in ('slice', 'array'):
        return [(st, a)]
    if tostr:
        return [(st, mk_pure('str', I.deepval(st, I.read(st, a))))]
    return [(st, T('ref', T('D', mk_pure('deref', I.read(st, a))), ()))] if False else [(st, mk_pure('derefp', I.read(st, a)))]


@m('std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new', 'alloc::boxed::Box::new')
def box_new(I, st, d, args, info):
    st = st.copy()
    r = T('H', info.sid, 0, 'box')
    st.mem[r] = args[0]
    return [(st, T('ref', r, ()))]


@m('std::boxed::Box::new_uninit', 'alloc::boxed::Box::new_uninit')
def box_uninit(I, st, d, args, info):
    st = st.copy()
    r = T('H', info.sid, 0, 'box')
    st.mem[r] = T('undef')
    return [(st, T('ref', r, ()))]


@m('std::boxed::Box::pin')
def box_pin(I, st, d, args, info):
    (st, v), = box_new(I, st, d, args, info)
    return [(st, T('agg', 'core::pin::Pin', 0, (v,)))]


@m('std::boxed::box_new', 'alloc::boxed::box_new', 'std::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def box_new2(I, st, d, args, info):
    if 'into_vec' in d['p']:
        v = args[0]
        if v.op == 'ref':
            v = I.read(st, v)
        while v.op == 'agg' and v.args[0] not in ('array', 'vec') and len(v.args[2]) == 1:
            v = v.args[2][0]
        if v.op == 'upd' and len(v.args[1]) == 1:
            v = v.args[1][0][1]
            while v.op == 'upd' and len(v.args[1]) == 1 or v.op == 'agg' and v.args[0] not in ('array', 'vec') and len(v.args[2]) == 1:
                v = v.args[1][0][1] if v.op == 'upd' else v.args[2][0]
        if v.op == 'agg' and v.args[0] in ('array', 'vec'):
            return [(st, T('agg', 'vec', 0, v.args[2]))]
        return [(st, T('vecof', v))]
    return box_new(I, st, d, args, info)


@m('std::slice::<impl [T]>::into_vec', 'core::slice::<impl [T]>::into_vec')
def slice_into_vec(I, st, d, args, info):
    v = I.read(st, args[0]) if args[0].op == 'ref' else args[0]
    if v.op == 'agg':
        return [(st, T('agg', 'vec', 0, v.args[2]))]
    return [(st, T('vecof', v))]


@m('std::pin::Pin::new', 'std::pin::Pin::new_unchecked', 'core::pin::Pin::new', 'core::pin::Pin::new_unchecked')
def pin_new(I, st, d, args, info):
    return [(st, T('agg', 'core::pin::Pin', 0, (args[0],)))]


@m('std::pin::Pin::as_mut', 'core::pin::Pin::as_mut', 'std::pin::Pin::get_unchecked_mut')
def pin_as(I, st, d, args, info):
    return [(st, I.read(st, args[0]) if args[0].op == 'ref' else args[0])]


@m('std::mem::take', 'core::mem::take')
def mem_take(I, st, d, args, info):
    v = I.read(st, args[0])
    st = st.copy()
    r, p = I.deref_loc(args[0])
    new = T('pure', 'default', info.body.crate.ty(info.destty))
    if isinstance(info.destty, int):
        t = info.body.crate.types[info.destty]
        if t.get('adt') == OPT:
            new = NONE
        elif t.get('adt') == 'alloc::vec::Vec':
            new = T('agg', 'vec', 0, ())
    I.mon.on_write(I, st, r, p, new, info)
    I.store(st, r, p, new)
    return [(st, v)]


@m('std::mem::replace', 'core::mem::replace')
def mem_replace(I, st, d, args, info):
    v = I.read(st, args[0])
    st = st.copy()
    r, p = I.deref_loc(args[0])
    I.mon.on_write(I, st, r, p, args[1], info)
    I.store(st, r, p, args[1])
    return [(st, v)]


@m('std::mem::swap', 'core::mem::swap')
def mem_swap(I, st, d, args, info):
    v, w = I.read(st, args[0]), I.read(st, args[1])
    st = st.copy()
    for a, x in ((args[0], w), (args[1], v)):
        r, p = I.deref_loc(a)
        I.mon.on_write(I, st, r, p, x, info)
        I.store(st, r, p, x)
    return [(st, UNIT)]


@m('std::option::Option::take', 'core::option::Option::take')
def opt_take(I, st, d, args, info):
    v = I.read(st, args[0])
    st = st.copy()
    r, p = I.deref_loc(args[0])
    I.mon.on_write(I, st, r, p, NONE, info)
    I.store(st, r, p, NONE)
    return [(st, v)]


@m('std::option::Option::replace', 'std::option::Option::insert')
def opt_replace(I, st, d, args, info):
    v = I.read(st, args[0])
    st = st.copy()
    r, p = I.deref_loc(args[0])
    I.mon.on_write(I, st, r, p, some(args[1]), info)
    I.store(st, r, p, some(args[1]))
    if d['n'] == 'insert':
        return [(st, T('ref', r, tuple(p) + (('f', 1, 0),)))]
    return [(st, v)]


@m('core::mem::drop', 'std::mem::drop')
def mem_drop(I, st, d, args, info):
    st = st.copy()
    r = T('H', info.sid, 0, 'drop')
    st.mem[r] = args[0]
    res = I.mon.on_drop(I, st, info.argtys[0] if info.argtys else None, r, (), info)
    out = [st] if res is None else res
    for s in out:
        s.mem.pop(r, None)
    return [(s, UNIT) for s in out]


@m('core::mem::forget', 'std::mem::forget')
def mem_forget(I, st, d, args, info):
    return [(st, UNIT)]


# ---------------------------------------------------------------- conversions
@m('core::convert::Into::into', 'core::convert::From::from', 'alloc::borrow::ToOwned::to_owned', 'alloc::string::ToString::to_string',
   'core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def conv(I, st, d, args, info):
    b = I.F.by_id.get(d.get('r') or '')
    crate = info.body.crate
    if d['n'] == 'into' and b is None and isinstance(info.destty, int):
        # Into through a local From
        dst = crate.types[info.destty]
        src = ty_of(info, 0)
        for c, im, ii in I.F.impls_of.get('core::convert::From::from', ()):
            x = I.F.by_id.get(ii)
            if x is None or c is not crate:
                continue
            if x.crate.types[im['self']]['s'] == dst['s'] and x.crate.types[x.locals[1]]['s'] == src['s']:
                b = x
                break
    if b is not None:
        return I.enter(b, args, st, info)
    ty = ty_of(info, 0)
    dst = crate.types[info.destty] if isinstance(info.destty, int) else {'s': '?', 'k': '?'}
    v = args[0]
    if ty['s'] == dst['s']:
        return [(st, v)]
    isstr = ty['k'] == 'ref' and crate.types[ty['a'][0]]['k'] == 'str' or ty.get('adt') == 'alloc::string::String'
    if d['n'] in ('to_owned', 'to_string') and ty['k'] == 'ref':
        inner = crate.types[ty['a'][0]]
        if inner['k'] == 'str':
            return [(st, v)]
        if inner.get('adt') == 'alloc::string::String' or d['n'] == 'to_owned':
            return [(st, I.read(st, v))]
        if inner['k'] == 'ref' and crate.types[inner['a'][0]]['k'] == 'str':
            return [(st, I.read(st, v))]
        return [(st, mk_pure('to_string', I.deepval(st, v)))]
    if dst.get('adt') == 'alloc::string::String':
        if isstr or v.op == 'c' and v.args[0] == 's':
            return [(st, v)]
        if ty['k'] == 'ref':
            return [(st, peel(I, st, v, ty, crate))]
    if dst['s'] in engine.INT_BITS and d['n'] in ('into', 'from') and ty['s'] == 'bool':
        return [(st, v)]
    if dst['s'] in engine.INT_BITS and d['n'] in ('into', 'from') and ty['s'] in engine.INT_BITS:
        return [(st, v if is_c(v) else T('cast', dst['s'], v))]
    if dst.get('adt') in PTRS and dst.get('a') and d['n'] in ('into', 'from'):
        return box_new(I, st, d, args, info)
    if dst.get('adt') == 'bson::bson::Bson' and d['n'] in ('into', 'from'):
        r = to_bson(I, st, v, ty, crate)
        if r is not None:
            return [(st, r)]
    if d['n'] in ('try_into', 'try_from'):
        return [(st, mk_pure('try_into', S_(dst['s']), I.deepval(st, v)))]
    return [(st, mk_pure('into', S_(dst['s']), I.deepval(st, v)))]


@m('core::ops::try_trait::FromResidual::from_residual')
def from_residual(I, st, d, args, info):
    """The error half of `?`: the error is converted by the From impl the types at this call select."""
    if not isinstance(info.destty, int):
        return None
    crate = info.body.crate
    src, dst = ty_of(info, 0), crate.types[info.destty]
    if src.get('adt') != RES or dst.get('adt') != RES or len(src.get('a', ())) < 2 or len(dst.get('a', ())) < 2:
        return None
    v = args[0]
    e = v.args[2][0] if v.op == 'agg' and v.args[0] == RES else proj(v, ('f', 1, 0))
    se, de = crate.types[src['a'][1]], crate.types[dst['a'][1]]
    if se['s'] == de['s']:
        return [(st, err(e))]
    for c, im, ii in I.F.impls_of.get('core::convert::From::from', ()):
        x = I.F.by_id.get(ii)
        if x is None or c is not crate:
            continue
        if x.crate.types[im['self']]['s'] == de['s'] and x.crate.types[x.locals[1]]['s'] == se['s']:
            return [(s, err(r)) for s, r in I.enter(x, [e], st, info)]
    return None


BSON = 'bson::bson::Bson'


def bson_variant(name):
    for i, v in enumerate(engine.ADT_VARIANTS.get(BSON, [])):
        if v[0] == name:
            return i
    return None


def to_bson(I, st, v, ty, crate):
    k = {'i32': 'Int32', 'i64': 'Int64', 'bool': 'Boolean', 'f64': 'Double', 'u32': 'Int32'}.get(ty['s'])
    if ty.get('adt') == 'alloc::string::String' or ty['k'] == 'ref' and crate.types[ty['a'][0]]['k'] == 'str':
        k = 'String'
    if ty.get('adt') == 'bson::document::Document':
        k = 'Document'
    if ty.get('adt') == 'bson::oid::ObjectId':
        k = 'ObjectId'
    if ty.get('adt') == 'alloc::vec::Vec':
        k = 'Array'
    if ty['s'] == 'u32':
        v = T('cast', 'i32', v)
    if k is None or bson_variant(k) is None:
        return None
    return T('agg', BSON, bson_variant(k), (v,))


# ---------------------------------------------------------------- comparisons
@m('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def partial_eq(I, st, d, args, info):
    b = I.F.by_id.get(d.get('r') or '')
    if b is not None and b.titem == 'core::cmp::PartialEq::eq' and len([x for x in b.blocks if not x.get('cl')]) > 25:
        return None
    crate = info.body.crate
    x = deepstr(I, st, peel(I, st, args[0], ty_of(info, 0), crate))
    y = deepstr(I, st, peel(I, st, args[1], ty_of(info, 1), crate))
    r = mk_eq_val(x, y)
    if d['n'] == 'ne':
        r = mk_not(r)
    return [(st, r)]


def deepstr(I, st, v):
    return I.deepval(st, v)


def mk_eq_val(x, y):
    """Equality of two values; enum values without fields compare by discriminant."""
    for a, b in ((x, y), (y, x)):
        if b.op == 'agg' and a.op != 'agg':
            vs = engine.ADT_VARIANTS.get(b.args[0])
            if vs and not vs[b.args[1]][2] and b.args[0] != 'tuple':
                return mk_eq(mk_disc(a), mk_disc(b))
    if x.op == 'agg' and y.op == 'agg' and x.args[0] == y.args[0]:
        if x.args[1] != y.args[1]:
            return FALSE
        if not x.args[2] and not y.args[2]:
            return TRUE
    return mk_eq(x, y)


@m('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::ge')
def partial_ord(I, st, d, args, info):
    crate = info.body.crate
    x = peel(I, st, args[0], ty_of(info, 0), crate)
    y = peel(I, st, args[1], ty_of(info, 1), crate)
    op = {'lt': 'Lt', 'gt': 'Gt', 'le': 'Le', 'ge': 'Ge'}[d['n']]
    return [(st, mk_bin(op, x, y))]


# ---------------------------------------------------------------- strings
@m('std::string::String::new', 'alloc::string::String::new')
def string_new(I, st, d, args, info):
    return [(st, S_(''))]


@m('std::str::<impl str>::is_empty', 'core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def str_is_empty(I, st, d, args, info):
    v = peel(I, st, args[0], ty_of(info, 0), info.body.crate)
    if is_c(v):
        return [(st, I_(v.args[1] == ''))]
    return [(st, mk_eq(v, S_('')))]


@m('core::str::<impl str>::starts_with')
def str_starts(I, st, d, args, info):
    v, p = args
    if is_c(v) and is_c(p):
        q = p.args[1] if isinstance(p.args[1], str) else chr(p.args[1])
        return [(st, I_(v.args[1].startswith(q)))]
    k = I._kc(st, v)
    if k is not None and is_c(p):
        q = p.args[1] if isinstance(p.args[1], str) else chr(p.args[1])
        return [(st, I_(str(k).startswith(q)))]
    if is_c(p) and not isinstance(p.args[1], str):
        p = S_(chr(p.args[1]))
    return [(st, mk_pure('starts_with', v, I.deepval(st, p)))]


@m('core::str::<impl str>::strip_prefix')
def str_strip(I, st, d, args, info):
    v, p = (I.deepval(st, x) for x in args)
    if v.op == 'c' and isinstance(v.args[1], str) and p.op == 'c':
        q = p.args[1] if isinstance(p.args[1], str) else chr(p.args[1])
        return [(st, some(T('c', 's', v.args[1][len(q):])) if v.args[1].startswith(q) else NONE)]
    return None


# ---------------------------------------------------------------- vectors and slices


@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity')
def vec_new(I, st, d, args, info):
    return [(st, T('agg', 'vec', 0, ()))]


@m('core::default::Default::default')
def default(I, st, d, args, info):
    b = I.resolve(st, d, args)
    if b is not None:
        return None
    t = info.body.crate.types[info.destty] if isinstance(info.destty, int) else {'k': '?', 's': '?'}
    s = t.get('adt')
    if s == OPT:
        return [(st, NONE)]
    if s == 'alloc::vec::Vec':
        return [(st, T('agg', 'vec', 0, ()))]
    if s == 'alloc::string::String':
        return [(st, S_(''))]
    if t['s'] == 'bool' or t['s'] in engine.INT_BITS:
        return [(st, FALSE)]
    return [(st, T('pure', 'default', t['s']))]


@m('std::vec::Vec::push', 'alloc::vec::Vec::push', 'std::collections::VecDeque::push_back')
def vec_push(I, st, d, args, info):
    st = st.copy()
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if v.op == 'agg' and v.args[0] == 'vec' and len(v.args[2]) < I.mon.vec_max:
        nv = T('agg', 'vec', 0, v.args[2] + (args[1],))
    else:
        nv = T('hav', info.sid, 0, 'push')
    I.mon.on_write(I, st, r, p, nv, info)
    I.store(st, r, p, nv)
    return [(st, UNIT)]


@m('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def vec_pop(I, st, d, args, info):
    st = st.copy()
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if v.op == 'agg' and v.args[0] == 'vec':
        if not v.args[2]:
            return [(st, NONE)]
        nv = T('agg', 'vec', 0, v.args[2][:-1])
        I.mon.on_write(I, st, r, p, nv, info)
        I.store(st, r, p, nv)
        return [(st, some(v.args[2][-1]))]
    nv = T('hav', info.sid, 0, 'pop')
    I.mon.on_write(I, st, r, p, nv, info)
    I.store(st, r, p, nv)
    return [(st, T('call', 'Vec::pop', info.sid, 0, v))]


@m('std::vec::Vec::remove', 'std::vec::Vec::insert', 'std::vec::Vec::truncate', 'std::collections::VecDeque::remove')
def vec_edit(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if v.op != 'agg' or v.args[0] != 'vec' or args[1].op != 'c' or not isinstance(args[1].args[1], int):
        return None
    i, xs = args[1].args[1], v.args[2]
    st = st.copy()
    if d['n'] == 'remove':
        if i >= len(xs):
            I.mon.on_panic(I, st, d, args, info)
            return [(st, engine.DIVERGE)]
        nv, ret = xs[:i] + xs[i + 1:], xs[i]
    elif d['n'] == 'insert':
        nv, ret = xs[:i] + (args[2],) + xs[i:], UNIT
    else:
        nv, ret = xs[:i], UNIT
    nv = T('agg', 'vec', 0, nv)
    I.mon.on_write(I, st, r, p, nv, info)
    I.store(st, r, p, nv)
    return [(st, ret)]


@m('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'std::slice::<impl [T]>::len', 'core::str::<impl str>::len',
   'std::string::String::len', 'std::collections::HashMap::len', 'bson::Document::len', 'bson::document::Document::len',
   'indexmap::IndexMap::len')
def vec_len(I, st, d, args, info):
    v = peel(I, st, args[0], ty_of(info, 0), info.body.crate)
    known = doc_items(v)
    if known is not None:
        return [(st, I_(len(known)))]
    return [(st, mk_len(v))]


@m('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::slice::<impl [T]>::is_empty',
   'bson::Document::is_empty', 'bson::document::Document::is_empty', 'indexmap::IndexMap::is_empty')
def vec_is_empty(I, st, d, args, info):
    v = peel(I, st, args[0], ty_of(info, 0), info.body.crate)
    known = doc_items(v)
    if known is not None:
        return [(st, I_(not known))]
    return [(st, mk_eq(mk_len(v), I_(0)))]


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::get',
   'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::get_mut')
def slice_get(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    n = d['n'].replace('_mut', '')
    idx = None
    if v.op == 'agg':
        k = len(v.args[2])
        if n == 'first':
            idx = 0 if k else -1
        elif n == 'last':
            idx = k - 1
        elif is_c(args[1]):
            idx = args[1].args[1] if args[1].args[1] < k else -1
        if idx is not None:
            return [(st, NONE if idx < 0 else some(T('ref', r, tuple(p) + (('i', I_(idx)),))))]
    i = I_(0) if n == 'first' else mk_bin('Sub', mk_len(v), I_(1)) if n == 'last' else args[1]
    if len(args) > 1 and ty_of(info, 1)['s'] != 'usize':
        return None
    e = mk_lt(i, mk_len(v)) if n == 'get' else mk_not(mk_eq(mk_len(v), I_(0)))
    s1, s0 = st.copy(), st.copy()
    out = []
    if I.assume(s1, e, 1):
        out.append((s1, some(T('ref', r, tuple(p) + (('i', i),)))))
    if I.assume(s0, e, 0):
        out.append((s0, NONE))
    return out


@m('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(I, st, d, args, info):
    if I.F.by_id.get(d.get('r') or '') is not None:
        return None
    crate = info.body.crate
    r, p = I.deref_loc(args[0])
    if ty_of(info, 1)['s'] == 'usize':
        return [(st, T('ref', r, tuple(p) + (('i', args[1]),)))]
    v = I.load(st, r, p)
    if d['n'] == 'index':
        return [(st, mk_pure('index', I.deepval(st, v), I.deepval(st, args[1])))]
    return None


@m('std::vec::Vec::clear')
def vec_clear(I, st, d, args, info):
    st = st.copy()
    r, p = I.deref_loc(args[0])
    nv = T('agg', 'vec', 0, ())
    I.mon.on_write(I, st, r, p, nv, info)
    I.store(st, r, p, nv)
    return [(st, UNIT)]


# ---------------------------------------------------------------- documents and maps whose entries are all known
def doc_items(v):
    """The entries of a known document (or map) in order, or None."""
    ops = []
    while v.op in ('docins', 'docrem'):
        ops.append(v)
        v = v.args[0]
    if v.op != 'docempty':
        return None
    out = []
    for o in reversed(ops):
        k = o.args[1]
        if not is_c(k):
            return None
        i = [n for n, (x, _) in enumerate(out) if x is k]
        if o.op == 'docrem':
            out = [x for x in out if x[0] is not k]
        elif i:
            out[i[0]] = (k, o.args[2])
        else:
            out.append((k, o.args[2]))
    return out


def vref(v):
    return T('ref', T('V', v), ())


# ---------------------------------------------------------------- iteration
# An iterator is agg('iter', 0, (kind, source...)); the element of a source is elem(source) at the call site of next.
def it(kind, *src):
    return T('agg', 'iter:' + kind, 0, tuple(src))


ITER_SRC = ('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::slice::<impl [T]>::iter',
            'bson::Document::iter', 'bson::document::Document::iter', 'std::collections::HashMap::iter',
            'std::collections::HashMap::values', 'std::collections::HashMap::keys', 'indexmap::IndexMap::iter',
            'indexmap::IndexMap::values', 'indexmap::IndexMap::keys', 'bson::document::Document::keys', 'bson::Document::keys')


@m('core::iter::traits::collect::IntoIterator::into_iter', *ITER_SRC)
def into_iter(I, st, d, args, info):
    if I.F.by_id.get(d.get('r') or '') is not None:
        return None
    v = args[0]
    if v.op == 'agg' and str(v.args[0]).startswith('iter:'):
        return [(st, v)]
    ty = ty_of(info, 0)
    crate = info.body.crate
    if ty.get('trait') or ty['k'] == 'param':
        pass
    if v.op == 'agg' and v.args[0] in ('core::ops::range::Range',):
        return [(st, it('range', *v.args[2]))]
    # an iterator of the crate itself (implements Iterator): stays what it is
    if ty['k'] == 'adt':
        for c, im, ii in I.F.impls_of.get('core::iter::traits::iterator::Iterator::next', ()):
            if c.types[im['self']].get('adt') == ty['adt']:
                return [(st, v)]
    tag = ''
    if d['n'] in ('values', 'keys'):
        tag = d['n']
    elif re.match(r"(&('\w+ )?(mut )?)*(\w+::)*(Document|\w*Map)(<.*>)?$", ty['s']):
        tag = 'pairs'
    byref = ty['k'] == 'ref'
    if byref:
        r, p = I.deref_loc(v)
        val = I.load(st, r, p)
        k = 'ref'
        while val.op == 'ref':
            r, p = I.deref_loc(val)
            val = I.load(st, r, p)
        known = doc_items(val) if tag else None
        if known is not None:
            pick = {'pairs': lambda a, b: T('agg', 'tuple', 0, (vref(a), vref(b))), 'keys': lambda a, b: vref(a),
                    'values': lambda a, b: vref(b)}[tag]
            return [(st, it('list', T('agg', 'vec', 0, tuple(pick(a, b) for a, b in known))))]
        if val.op == 'agg' and val.args[0] in ('vec', 'array') and not tag:
            return [(st, it('list', T('agg', 'vec', 0, tuple(T('ref', r, tuple(p) + (('i', I_(i)),)) for i in range(len(val.args[2]))))))]
        return [(st, it('of', S_('ref' + tag), I.ref_to(r, p)))]
    if v.op == 'agg' and v.args[0] in ('vec', 'array'):
        return [(st, it('list', T('agg', 'vec', 0, v.args[2])))]
    known = doc_items(v) if tag else None
    if known is not None:
        return [(st, it('list', T('agg', 'vec', 0, tuple(T('agg', 'tuple', 0, x) for x in known))))]
    return [(st, it('of', S_('val' + tag), v))]


@m('core::iter::traits::iterator::Iterator::enumerate')
def enumerate_(I, st, d, args, info):
    return [(st, it('enum', args[0], I_(0)))]


@m('core::iter::traits::iterator::Iterator::rev')
def rev_(I, st, d, args, info):
    v = args[0]
    if v.op == 'agg' and v.args[0] == 'iter:list':
        return [(st, it('list', T('agg', 'vec', 0, v.args[2][0].args[2][::-1])))]
    return [(st, it('rev', v))]


@m('core::iter::traits::iterator::Iterator::map')
def map_(I, st, d, args, info):
    return [(st, it('map', args[0], args[1]))]


@m('core::iter::traits::iterator::Iterator::zip')
def zip_(I, st, d, args, info):
    (st, o), = into_iter(I, st, dict(d, n='into_iter', r=''), [args[1]], _shift(info, 1)) or [(st, args[1])]
    return [(st, it('zip', args[0], o))]


def _shift(info, k):
    i2 = Info()
    for a in Info.__slots__:
        try:
            setattr(i2, a, getattr(info, a))
        except AttributeError:
            pass
    i2.argtys = list(info.argtys[k:]) if info.argtys else []
    return i2


@m('core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied')
def cloned_(I, st, d, args, info):
    return [(st, it('cloned', args[0]))]


@m(*['core::iter::traits::iterator::Iterator::' + x for x in ('take_while', 'skip_while', 'map_while', 'filter_map', 'inspect', 'take', 'skip')])
def adapter_(I, st, d, args, info):
    if not known_iter(args[0]):
        return None
    return [(st, it(d['n'], args[0], args[1]))]


def known_iter(v):
    return v.op == 'agg' and str(v.args[0]).startswith('iter:')


@m('core::iter::traits::iterator::Iterator::chain')
def chain_(I, st, d, args, info):
    if not known_iter(args[0]):
        return None
    (st, o), = into_iter(I, st, dict(d, n='into_iter', r=''), [args[1]], _shift(info, 1)) or [(st, args[1])]
    return [(st, it('chain', args[0], o))]


@m('core::iter::traits::iterator::Iterator::peekable', 'core::iter::traits::iterator::Iterator::fuse')
def peekable_(I, st, d, args, info):
    if not known_iter(args[0]):
        return None
    return [(st, it('peek', args[0]))]


@m('core::iter::adapters::peekable::Peekable::peek')
def peek_(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if not (v.op == 'agg' and v.args[0] == 'iter:peek'):
        return None
    a = v.args[2]
    if len(a) > 1:
        rs = [(st, a[0], None if a[1].args[1] == 0 else a[1].args[2][0])]
    else:
        rs = iter_next(I, st, a[0], info) or raw_next(I, st, a[0], info)
    out = []
    for s, n, e in rs:
        s = s.copy()
        I.store(s, r, p, it('peek', n, NONE if e is None else some(e)))
        out.append((s, NONE if e is None else some(T('ref', r, tuple(p) + (('f', None, 1), ('f', 1, 0))))))
    return out


@m('core::iter::sources::once::once')
def once_(I, st, d, args, info):
    return [(st, it('list', T('agg', 'vec', 0, (args[0],))))]


@m('core::iter::sources::empty::empty')
def empty_(I, st, d, args, info):
    return [(st, it('list', T('agg', 'vec', 0, ())))]


@m('core::iter::traits::iterator::Iterator::fold')
def fold_(I, st, d, args, info):
    if not known_iter(args[0]) or not _finite(args[0]):
        return None
    return [(s, a) for s, a, dn in _consume(I, st, args[0], info, None, args[1],
                                            lambda s, acc, e: [(s2, rv, None) for s2, rv in I.call_value(s, args[2], [acc, e], info) if rv is not DIVERGE])]


@m('core::iter::traits::iterator::Iterator::nth')
def nth_(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if not known_iter(v) or not _finite(v) or not is_c(args[1]):
        return None
    work, out = [(st, v, args[1].args[1])], []
    while work:
        s, x, k = work.pop()
        for s2, n, e in iter_next(I, s, x, info):
            if e is None or k == 0:
                s2 = s2.copy()
                I.store(s2, r, p, n)
                out.append((s2, NONE if e is None else some(e)))
            else:
                work.append((s2, n, k - 1))
    return out


@m('core::iter::traits::iterator::Iterator::filter')
def filter_(I, st, d, args, info):
    return [(st, it('filter', args[0], args[1]))]


def elem_of(I, st, kind, src, info, k=0):
    """The next element of an unknown source."""
    key = T('call', 'elem', info.sid, 0, S_(kind), src, I_(k))
    if kind == 'refpairs' or kind == 'valpairs':
        if kind == 'refpairs':
            # (&key, &value): the key as string pointer content is one deref away
            kr = T('fld', key, ('f', None, 0))
            vr = T('fld', key, ('f', None, 1))
            return T('agg', 'tuple', 0, (kr, vr))
        return T('agg', 'tuple', 0, (T('fld', key, ('f', None, 0)), T('fld', key, ('f', None, 1))))
    return key


def iter_next(I, st, v, info, k=0):
    """[(state, new iterator, None | element)] for an iterator value, or None if unknown."""
    if v.op != 'agg' or not str(v.args[0]).startswith('iter:'):
        return None
    kind, a = v.args[0][5:], v.args[2]
    if kind == 'list':
        l = a[0].args[2]
        if not l:
            return [(st, v, None)]
        return [(st, it('list', T('agg', 'vec', 0, l[1:])), l[0])]
    if kind == 'of':
        e = elem_of(I, st, a[0].args[1], a[1], info, k)
        return [(st.copy(), v, None), (st.copy(), v, e)]
    if kind == 'range':
        c = mk_lt(a[0], a[1])
        out = []
        kv = I.known(st, c)
        s1, s0 = st.copy(), st.copy()
        if kv != 1 and I.assume(s0, c, 0):
            out.append((s0, v, None))
        if kv != 0 and I.assume(s1, c, 1):
            out.append((s1, it('range', mk_bin('Add', a[0], I_(1)), a[1]), a[0]))
        return out
    if kind == 'rev':
        r = iter_next(I, st, a[0], info, k)
        if r is None:
            return None
        return [(s, it('rev', n), e) for s, n, e in r]
    if kind == 'enum':
        r = iter_next(I, st, a[0], info, k)
        if r is None:
            r = raw_next(I, st, a[0], info, k)
        out = []
        for s, n, e in r:
            if e is None:
                out.append((s, it('enum', n, a[1]), None))
            else:
                out.append((s, it('enum', n, mk_bin('Add', a[1], I_(1))), T('agg', 'tuple', 0, (a[1], e))))
        return out
    if kind == 'cloned':
        r = iter_next(I, st, a[0], info, k) or raw_next(I, st, a[0], info, k)
        return [(s, it('cloned', n), None if e is None else I.read(s, e)) for s, n, e in r]
    if kind == 'zip':
        out = []
        for s, n, e in iter_next(I, st, a[0], info, k) or raw_next(I, st, a[0], info, k):
            if e is None:
                out.append((s, it('zip', n, a[1]), None))
                continue
            for s2, n2, e2 in iter_next(I, s, a[1], info, k + 1) or raw_next(I, s, a[1], info, k + 1):
                out.append((s2, it('zip', n, n2), None if e2 is None else T('agg', 'tuple', 0, (e, e2))))
        return out
    if kind == 'map':
        out = []
        for s, n, e in iter_next(I, st, a[0], info, k) or raw_next(I, st, a[0], info, k):
            if e is None:
                out.append((s, it('map', n, a[1]), None))
            else:
                for s2, rv in I.call_value(s, a[1], [e], info):
                    if rv is not DIVERGE:
                        out.append((s2, it('map', n, a[1]), rv))
        return out
    if kind == 'filter':
        out = []
        for s, n, e in iter_next(I, st, a[0], info, k) or raw_next(I, st, a[0], info, k):
            if e is None:
                out.append((s, it('filter', n, a[1]), None))
            else:
                s = s.copy()
                h = T('H', info.sid, 0, 'flt')
                s.mem[h] = e
                for s2, rv in I.call_value(s, a[1], [T('ref', h, ())], info):
                    if rv is DIVERGE:
                        continue
                    kv = I.known(s2, rv)
                    if kv != 0:
                        s3 = s2.copy()
                        if I.assume(s3, rv, 1):
                            out.append((s3, it('filter', n, a[1]), e))
                    # a rejected element: the iterator moves on; over an unknown source the next round is the same abstract state
                    if kv != 1:
                        s4 = s2.copy()
                        if I.assume(s4, rv, 0):
                            nx = it('filter', n, a[1])
                            out += iter_next(I, s4, nx, info, k) if _finite(n) else [(s4, nx, None)]
        return out
    step = lambda s, x: iter_next(I, s, x, info, k) or raw_next(I, s, x, info, k)       # noqa
    if kind in ('take_while', 'skip_while', 'map_while', 'filter_map', 'inspect'):
        out = []
        if kind == 'take_while' and len(a) > 2:
            return [(st, v, None)]
        for s, n, e in step(st, a[0]):
            if e is None:
                out.append((s, it(kind, n, a[1]), None))
                continue
            if kind == 'skip_while' and len(a) > 2:
                out.append((s, it(kind, n, a[1], I_(1)), e))
                continue
            arg = e
            if kind in ('take_while', 'skip_while', 'inspect'):
                s = s.copy()
                h = T('H', info.sid, 0, 'flt')
                s.mem[h] = e
                arg = T('ref', h, ())
            for s2, rv in I.call_value(s, a[1], [arg], info):
                if rv is DIVERGE:
                    continue
                if kind == 'inspect':
                    out.append((s2, it(kind, n, a[1]), e))
                    continue
                t = rv if kind in ('take_while', 'skip_while') else mk_disc(rv)
                kv = I.known(s2, t)
                for val in (0, 1):
                    if kv is not None and kv != val:
                        continue
                    s3 = s2.copy()
                    if not I.assume(s3, t, val):
                        continue
                    if kind == 'take_while':
                        out.append((s3, it(kind, n, a[1]), e) if val else (s3, it(kind, n, a[1], I_(1)), None))
                    elif kind == 'skip_while':
                        nx = it(kind, n, a[1])
                        out += [(s3, it(kind, n, a[1], I_(1)), e)] if not val else \
                            iter_next(I, s3, nx, info, k) if _finite(n) else [(s3, nx, None)]
                    elif kind == 'map_while':
                        out.append((s3, it(kind, n, a[1]), proj(rv, ('f', 1, 0)) if val else None))
                    else:
                        nx = it(kind, n, a[1])
                        out += [(s3, nx, proj(rv, ('f', 1, 0)))] if val else iter_next(I, s3, nx, info, k) if _finite(n) else [(s3, nx, None)]
        return out
    if kind == 'chain':
        out = []
        for s, n, e in step(st, a[0]):
            out += [(s, it('chain', n, a[1]), e)] if e is not None else step(s, a[1])
        return out
    if kind == 'take':
        if is_c(a[1]) and a[1].args[1] <= 0:
            return [(st, v, None)]
        return [(s, it('take', n, mk_bin('Sub', a[1], I_(1))) if e is not None else v, e) for s, n, e in step(st, a[0])] + \
            ([] if is_c(a[1]) else [(st.copy(), v, None)])
    if kind == 'skip':
        if is_c(a[1]) and a[1].args[1] <= 0 or not _finite(a[0]) or not is_c(a[1]):
            return [(s, it('skip', n, I_(0)), e) for s, n, e in step(st, a[0])]
        out = []
        for s, n, e in step(st, a[0]):
            out += [(s, it('skip', n, I_(0)), None)] if e is None else iter_next(I, s, it('skip', n, mk_bin('Sub', a[1], I_(1))), info, k)
        return out
    if kind == 'peek':
        if len(a) > 1:
            x = a[1]
            return [(st, it('peek', a[0]), None if x.args[1] == 0 else x.args[2][0])]
        return [(s, it('peek', n), e) for s, n, e in step(st, a[0])]
    return None


def raw_next(I, st, v, info, k=0):
    e = T('call', 'elem', info.sid, 0, S_('val'), v, I_(k))
    return [(st.copy(), v, None), (st.copy(), v, e)]


@m('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def next_(I, st, d, args, info):
    if I.resolve(st, d, args) is not None:
        return None
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    while v.op == 'ref':
        r, p = I.deref_loc(v)
        v = I.load(st, r, p)
    if d['n'] == 'next_back':
        if v.op == 'agg' and v.args[0] == 'iter:list':
            l = v.args[2][0].args[2]
            s = st.copy()
            if not l:
                return [(s, NONE)]
            I.store(s, r, p, it('list', T('agg', 'vec', 0, l[:-1])))
            return [(s, some(l[-1]))]
    res = iter_next(I, st, v, info)
    if res is None:
        return None
    out = []
    for s, n, e in res:
        s = s.copy()
        I.store(s, r, p, n)
        out.append((s, NONE if e is None else some(e)))
    return out


def _consume(I, st, v, info, f, acc0, body):
    """Generic bounded consumption of an iterator with a closure: body(s, acc, elem) -> [(s, acc, done_value|None)]."""
    out, work, seen = [], [(st, v, acc0, 0)], set()
    while work:
        s, itv, acc, n = work.pop()
        r = iter_next(I, s, itv, info) or raw_next(I, s, itv, info)
        for s2, n2, e in r:
            if e is None:
                out.append((s2, acc, None))
                continue
            for s3, acc2, done in body(s2, acc, e):
                if done is not None:
                    out.append((s3, acc2, done))
                    continue
                key = (s3.key(), n2, acc2)
                if key in seen:
                    continue
                seen.add(key)
                if n >= 24 or (n >= 2 and not str(n2.args[0]).startswith('iter:list') and n2.op == 'agg'
                               and n2.args[0] != 'iter:list' and not _finite(n2)):
                    out.append((s3, acc2, None))
                    continue
                work.append((s3, n2, acc2, n + 1))
    # dedupe
    uniq, keys = [], set()
    for s, a, dn in out:
        k = (s.key(), a, dn)
        if k not in keys:
            keys.add(k)
            uniq.append((s, a, dn))
    return uniq


def _finite(v):
    if v.op != 'agg':
        return False
    if v.args[0] == 'iter:list':
        return True
    if v.args[0] == 'iter:range':
        return is_c(v.args[2][0]) and is_c(v.args[2][1])
    return any(_finite(x) for x in v.args[2] if isinstance(x, Term))


@m('core::iter::traits::iterator::Iterator::any', 'core::iter::traits::iterator::Iterator::all')
def any_all(I, st, d, args, info):
    v = args[0]
    if v.op == 'ref':
        v = I.read(st, v)
    stop = d['n'] == 'any'

    def body(s, acc, e):
        out = []
        for s2, rv in I.call_value(s, args[1], [e], info):
            if rv is DIVERGE:
                continue
            kv = I.known(s2, rv)
            for val in (0, 1):
                if kv is None or kv == val:
                    s3 = s2.copy()
                    if I.assume(s3, rv, val):
                        out.append((s3, acc, I_(stop) if bool(val) == stop else None))
        return out
    res = _consume(I, st, v, info, args[1], UNIT, body)
    return [(s, dn if dn is not None else I_(not stop)) for s, a, dn in res]


@m('core::iter::traits::iterator::Iterator::for_each')
def for_each(I, st, d, args, info):
    def body(s, acc, e):
        return [(s2, acc, None) for s2, rv in I.call_value(s, args[1], [e], info) if rv is not DIVERGE]
    return [(s, UNIT) for s, a, dn in _consume(I, st, args[0], info, args[1], UNIT, body)]


@m('core::iter::traits::iterator::Iterator::try_for_each')
def try_for_each(I, st, d, args, info):
    v = args[0]
    if v.op == 'ref':
        v = I.read(st, v)

    def body(s, acc, e):
        out = []
        for s2, rv in I.call_value(s, args[1], [e], info):
            if rv is DIVERGE:
                continue
            for s3, isok in split_result(I, s2, rv):
                out.append((s3, acc, None if isok else rv))
        return out
    return [(s, dn if dn is not None else ok(UNIT)) for s, a, dn in _consume(I, st, v, info, args[1], UNIT, body)]


@m('core::iter::traits::iterator::Iterator::find', 'core::iter::traits::iterator::Iterator::find_map',
   'core::iter::traits::iterator::Iterator::position')
def find_(I, st, d, args, info):
    v = args[0]
    if v.op == 'ref':
        v = I.read(st, v)
    mode = d['n']

    fin = _finite(v)

    def body(s, acc, e):
        out = []
        arg = e
        pos = acc
        if fin:
            acc = mk_bin('Add', acc, I_(1))
        if mode == 'find':
            s = s.copy()
            h = T('H', info.sid, 0, 'find')
            s.mem[h] = e
            arg = T('ref', h, ())
        for s2, rv in I.call_value(s, args[1], [arg], info):
            if rv is DIVERGE:
                continue
            if mode == 'find_map':
                dk = mk_disc(rv)
                for val in (0, 1):
                    s3 = s2.copy()
                    if I.assume(s3, dk, val):
                        out.append((s3, acc, rv if val else None))
            else:
                for val in (0, 1):
                    s3 = s2.copy()
                    if I.assume(s3, rv, val):
                        out.append((s3, acc, (some(e) if mode == 'find' else some(pos if fin else T('call', 'pos', info.sid, 0))) if val else None))
        return out
    return [(s, dn if dn is not None else NONE) for s, a, dn in _consume(I, st, v, info, args[1], I_(0) if fin else UNIT, body)]


def split_result(I, st, rv):
    dk = mk_disc(rv)
    out = []
    for val in (0, 1):
        s = st.copy()
        if I.assume(s, dk, val):
            out.append((s, val == 0))
    return out


@m('core::iter::traits::iterator::Iterator::collect', 'core::iter::traits::iterator::Iterator::count',
   'core::iter::traits::iterator::Iterator::sum', 'core::iter::traits::iterator::Iterator::last')
def collect_(I, st, d, args, info):
    v = args[0]
    crate = info.body.crate
    t = crate.types[info.destty] if isinstance(info.destty, int) else {'k': '?', 's': '?'}
    isres = t.get('adt') in (RES, OPT)
    tovec = t.get('adt') == 'alloc::vec::Vec' or (isres and crate.types[t['a'][0]].get('adt') == 'alloc::vec::Vec')

    def body(s, acc, e):
        if isres:
            out = []
            good = 0 if t['adt'] == RES else 1
            dk = mk_disc(e)
            for val in (0, 1):
                s3 = s.copy()
                if not I.assume(s3, dk, val):
                    continue
                if val == good:
                    out.append((s3, app(acc, proj(e, ('f', good, 0))), None))
                else:
                    out.append((s3, acc, err(proj(e, ('f', 1, 0))) if t['adt'] == RES else NONE))
            return out
        return [(s, app(acc, e), None)]

    def app(acc, e):
        if acc.op == 'agg' and len(acc.args[2]) < I.mon.vec_max:
            return T('agg', 'vec', 0, acc.args[2] + (e,))
        return T('hav', info.sid, 0, 'collect')
    fin = _finite(v)
    acc0 = T('agg', 'vec', 0, ()) if fin else T('call', 'collected', info.sid, 0, I.deepval(st, v))
    if not fin:
        app = lambda acc, e: acc        # noqa
    res = _consume(I, st, v, info, None, acc0, body)
    out = []
    for s, a, dn in res:
        if dn is not None:
            out.append((s, dn))
            continue
        val = a
        if d['n'] == 'count':
            val = mk_len(a)
        elif d['n'] != 'collect':
            val = T('call', d['n'], info.sid, 0, a)
        elif not tovec:
            val = T('call', 'collected:' + t['s'], info.sid, 0, a) if not isres else a
            mt = crate.types[t['a'][0]] if isres else t
            if I.mon.unroll and str(mt.get('adt', '')).endswith('Map') and a.op == 'agg' and all(x.op == 'agg' and len(x.args[2]) == 2 and is_c(x.args[2][0]) for x in a.args[2]):
                val = T('docempty')
                for x in a.args[2]:
                    val = T('docins', val, *x.args[2])
        out.append((s, (ok(val) if t['adt'] == RES else some(val)) if isres else val))
    return out


# ---------------------------------------------------------------- locks and cells
@m('std::sync::Mutex::lock', 'std::sync::RwLock::read', 'std::sync::RwLock::write', 'std::sync::poison::mutex::Mutex::lock')
def mutex_lock(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    return [(st, ok(T('agg', 'guard', 0, (T('ref', r, tuple(p) + (('f', None, 0),)),))))]


@m('std::sync::Mutex::new', 'std::cell::RefCell::new', 'std::cell::Cell::new', 'std::sync::RwLock::new')
def mutex_new(I, st, d, args, info):
    return [(st, T('agg', 'cell', 0, (args[0],)))]


@m('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut', 'core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut')
def refcell(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    return [(st, T('agg', 'guard', 0, (T('ref', r, tuple(p) + (('f', None, 0),)),)))]


@m('std::cell::Cell::get')
def cell_get(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    return [(st, I.load(st, r, tuple(p) + (('f', None, 0),)))]


@m('std::cell::Cell::set')
def cell_set(I, st, d, args, info):
    st = st.copy()
    r, p = I.deref_loc(args[0])
    p = tuple(p) + (('f', None, 0),)
    I.mon.on_write(I, st, r, p, args[1], info)
    I.store(st, r, p, args[1])
    return [(st, UNIT)]


@m('std::sync::Arc::downgrade', 'std::rc::Rc::downgrade')
def downgrade(I, st, d, args, info):
    return [(st, T('agg', 'weak', 0, (I.read(st, args[0]),)))]


@m('std::sync::Weak::upgrade', 'std::rc::Weak::upgrade')
def upgrade(I, st, d, args, info):
    v = I.read(st, args[0])
    return [(st, mk_pure('upgrade', v))]


def _atomics(*names):
    tys = ('Atomic', 'AtomicBool') + tuple('Atomic' + i + w for i in 'IU' for w in ('8', '16', '32', '64', 'size'))
    return m(*['%s::sync::atomic::%s::%s' % (c, t, n) for c in ('core', 'std') for t in tys for n in names])


@_atomics('new')
def atomic_new(I, st, d, args, info):
    return [(st, T('agg', 'cell', 0, (args[0],)))]


@_atomics('load')
def atomic_load(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    return [(st, I.load(st, r, tuple(p) + (('f', None, 0),)))]


# ---------------------------------------------------------------- async
@m('core::future::into_future::IntoFuture::into_future')
def into_future(I, st, d, args, info):
    return [(st, args[0])]


@m('core::future::get_context', 'std::future::get_context')
def get_context(I, st, d, args, info):
    return [(st, T('pure', 'ctx'))]


@m('core::future::future::Future::poll')
def poll(I, st, d, args, info):
    v = args[0]
    n = 0
    while n < 8 and (v.op == 'ref' or v.op == 'agg' and v.args[0] == 'core::pin::Pin'):
        v = I.read(st, v) if v.op == 'ref' else v.args[2][0]
        n += 1
    if v.op == 'agg' and str(v.args[0]).startswith('coroutine:'):
        b = I.F.by_id.get(v.args[0][10:])
        if b is not None:
            args2 = [v, T('pure', 'ctx')][:b.argc]
            pol = I.mon.inline(I, b, len(I.stack))
            if pol is None:
                pol = I.weight(b) <= I.mon.weight_limit
            res = I.enter(b, args2, st, info) if pol else I.opaque(st, b.np, args2, info)
            return [(s, T('agg', 'core::task::poll::Poll', 0, (rv,))) for s, rv in res]
    # an unknown future: its result
    return [(st, T('agg', 'core::task::poll::Poll', 0, (T('call', 'await', info.sid, 0, I.deepval(st, v)),)))]


# ---------------------------------------------------------------- BSON documents
DOC = ('bson::Document::', 'bson::document::Document::')


def mdoc(*names):
    return m(*[p + n for p in DOC for n in names])


def doc_get_val(doc, key):
    while doc.op in ('docins', 'docrem'):
        e = const_eq(doc.args[1], key)
        if e is True:
            return doc.args[2] if doc.op == 'docins' else False
        if e is None:
            return None
        doc = doc.args[0]
    if doc.op == 'docempty':
        return False
    return None


def doc_get(I, st, docref, key, info):
    """[(state, reference or None)]"""
    r, p = I.deref_loc(docref)
    doc = I.load(st, r, p)
    v = doc_get_val(doc, key)
    if v is False:
        return [(st, None)]
    if v is not None:
        st = st.copy()
        h = T('H', info.sid, 0, 'docval')
        st.mem[h] = v
        return [(st, T('ref', h, ()))]
    d0 = base_doc(doc, key)
    have = mk_pure('has', d0, key)
    out = []
    s1, s0 = st.copy(), st.copy()
    if I.assume(s1, have, 1):
        out.append((s1, T('pure', 'getp', d0, key)))
    if I.assume(s0, have, 0):
        out.append((s0, None))
    return out


def base_doc(doc, key):
    while doc.op in ('docins', 'docrem') and const_eq(doc.args[1], key) is False:
        doc = doc.args[0]
    return doc


@mdoc('new')
def doc_new(I, st, d, args, info):
    return [(st, T('docempty'))]


@mdoc('get')
def doc_get_m(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    return [(s, NONE if r is None else some(r)) for s, r in doc_get(I, st, args[0], key, info)]


@mdoc('contains_key')
def doc_contains(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    return [(s, I_(r is not None)) for s, r in doc_get(I, st, args[0], key, info)]


@mdoc('insert')
def doc_insert(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    val = args[2]
    ty = ty_of(info, 2)
    crate = info.body.crate
    if ty.get('adt') != BSON:
        b = to_bson(I, st, val, ty, crate)
        val = b if b is not None else mk_pure('into', S_('bson::Bson'), I.deepval(st, val))
    r, p = I.deref_loc(args[0])
    doc = I.load(st, r, p)
    st = st.copy()
    nd = doc
    n = 0
    while nd.op == 'docins':
        nd, n = nd.args[0], n + 1
    if n > (60 if I.mon.unroll else 6):
        nv = T('hav', info.sid, 0, 'docins')
    else:
        nv = T('docins', doc, key, val)
    I.mon.on_write(I, st, r, p, nv, info)
    I.store(st, r, p, nv)
    return [(st, T('call', 'doc.insert', info.sid, 0))]


@m('indexmap::IndexMap::new', 'std::collections::HashMap::new', 'std::collections::HashMap::with_capacity', 'indexmap::IndexMap::with_capacity')
def imap_new(I, st, d, args, info):
    return [(st, T('docempty'))] if I.mon.unroll else None


@m('indexmap::IndexMap::insert', 'std::collections::HashMap::insert')
def imap_insert(I, st, d, args, info):
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    if not I.mon.unroll or v.op not in ('docempty', 'docins', 'docrem') or not is_c(key):
        return None
    st = st.copy()
    nv = T('docins', v, key, args[2])
    I.mon.on_write(I, st, r, p, nv, info)
    I.store(st, r, p, nv)
    return [(st, NONE)]


@m('indexmap::IndexMap::get', 'std::collections::HashMap::get')
def imap_get(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    r, p = I.deref_loc(args[0])
    if not I.mon.unroll or I.load(st, r, p).op not in ('docempty', 'docins', 'docrem') or not is_c(key):
        return None
    return [(s, NONE if x is None else some(x)) for s, x in doc_get(I, st, args[0], key, info)]


@m('indexmap::IndexMap::shift_remove', 'indexmap::IndexMap::swap_remove', 'indexmap::IndexMap::remove', 'std::collections::HashMap::remove')
def imap_remove(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if not I.mon.unroll or v.op not in ('docempty', 'docins', 'docrem') or not is_c(key):
        return None
    return doc_remove(I, st, d, args, info)


@m('indexmap::IndexMap::contains_key', 'std::collections::HashMap::contains_key')
def imap_contains(I, st, d, args, info):
    r = imap_get(I, st, d, args, info)
    return None if r is None else [(s, I_(0 if x is NONE else 1)) for s, x in r]


@mdoc('remove')
def doc_remove(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    out = []
    r, p = I.deref_loc(args[0])
    for s, ref in doc_get(I, st, args[0], key, info):
        s = s.copy()
        if ref is None:
            out.append((s, NONE))
        else:
            v = I.read(s, ref)
            nv = T('docrem', I.load(s, r, p), key)
            I.mon.on_write(I, s, r, p, nv, info)
            I.store(s, r, p, nv)
            out.append((s, some(v)))
    return out


@mdoc('get_mut')
def doc_get_mut(I, st, d, args, info):
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    r, p = I.deref_loc(args[0])
    out = []
    for s, ref in doc_get(I, st, args[0], key, info):
        s = s.copy()
        if ref is not None:
            nv = T('docmut', I.load(s, r, p), key)
            # writes through the returned pointer are seen as writes to that pointer's cell
            out.append((s, some(ref)))
        else:
            out.append((s, NONE))
    return out


GETTERS = {'get_str': 'String', 'get_bool': 'Boolean', 'get_i32': 'Int32', 'get_i64': 'Int64', 'get_f64': 'Double',
           'get_document': 'Document', 'get_array': 'Array', 'get_object_id': 'ObjectId', 'get_datetime': 'DateTime',
           'get_document_mut': 'Document', 'get_array_mut': 'Array', 'get_binary_generic': 'Binary', 'get_null': 'Null'}


@mdoc(*GETTERS)
def doc_typed(I, st, d, args, info):
    want = bson_variant(GETTERS[d['n']])
    key = peel(I, st, args[1], ty_of(info, 1), info.body.crate)
    out = []
    e = T('call', 'ValueAccessError', info.sid, 0)
    for s, ref in doc_get(I, st, args[0], key, info):
        if ref is None:
            out.append((s, err(e)))
            continue
        v = I.read(s, ref)
        dk = mk_disc(v)
        dv = engine.ADT_VARIANTS[BSON][want][1]
        s1, s0 = s.copy(), s.copy()
        if I.assume(s1, dk, dv):
            r, p = I.deref_loc(ref)
            val = I.load(s1, r, tuple(p) + (('f', want, 0),))
            if d['n'] in ('get_bool', 'get_i32', 'get_i64', 'get_f64', 'get_str', 'get_object_id'):
                out.append((s1, ok(val)))
            else:
                out.append((s1, ok(T('ref', r, tuple(p) + (('f', want, 0),)))))
        if I.exclude(s0, dk, dv):
            out.append((s0, err(e)))
    return out


BSON_AS = {'as_str': 'String', 'as_bool': 'Boolean', 'as_i32': 'Int32', 'as_i64': 'Int64', 'as_f64': 'Double',
           'as_document': 'Document', 'as_array': 'Array', 'as_object_id': 'ObjectId', 'as_null': 'Null',
           'as_document_mut': 'Document', 'as_array_mut': 'Array', 'as_datetime': 'DateTime'}


@m(*['bson::Bson::' + n for n in BSON_AS])
def bson_as(I, st, d, args, info):
    want = bson_variant(BSON_AS[d['n']])
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    dk = mk_disc(v)
    dv = engine.ADT_VARIANTS[BSON][want][1]
    out = []
    s1, s0 = st.copy(), st.copy()
    if I.assume(s1, dk, dv):
        if d['n'] in ('as_bool', 'as_i32', 'as_i64', 'as_f64', 'as_str', 'as_object_id'):
            out.append((s1, some(I.load(s1, r, tuple(p) + (('f', want, 0),)))))
        else:
            out.append((s1, some(T('ref', r, tuple(p) + (('f', want, 0),)))))
    if I.exclude(s0, dk, dv):
        out.append((s0, NONE))
    return out


def ordering(i):
    return T('agg', 'core::cmp::Ordering', i + 1, ())


@m('core::cmp::Ord::cmp', 'std::cmp::Ord::cmp')
def ord_cmp(I, st, d, args, info):
    x, y = (I.deepval(st, a) for a in args)
    if x.op == 'c' and y.op == 'c' and type(x.args[1]) is type(y.args[1]):
        a, b = x.args[1], y.args[1]
        if isinstance(a, str):
            a, b = a.encode(), b.encode()
        return [(st, ordering((a > b) - (a < b)))]
    if x is y and x.op in ('c', 'par'):
        return [(st, ordering(0))]
    return None


@m('core::cmp::Ordering::then_with', 'std::cmp::Ordering::then_with', 'core::cmp::Ordering::then', 'std::cmp::Ordering::then')
def ord_then(I, st, d, args, info):
    x = I.deepval(st, args[0])
    if x.op != 'agg':
        return None
    if x.args[1] != 1:
        return [(st, x)]
    return [(st, args[1])] if d['n'] == 'then' else I.call_value(st, args[1], [], info)


@m('core::cmp::Ordering::reverse', 'std::cmp::Ordering::reverse')
def ord_reverse(I, st, d, args, info):
    x = I.deepval(st, args[0])
    return [(st, ordering(1 - x.args[1]))] if x.op == 'agg' else None


@m('bson::Bson::element_type')
def element_type(I, st, d, args, info):
    v = I.deepval(st, args[0], 3)
    et = 'bson::spec::ElementType'
    if v.op != 'agg' or et not in I.F.adts or v.args[0] not in I.F.adts:
        return None
    name = I.F.adts[v.args[0]]['v'][v.args[1]][0]
    name = {'Document': 'EmbeddedDocument'}.get(name, name)
    for i, x in enumerate(I.F.adts[et]['v']):
        if x[0] == name:
            return [(st, T('agg', et, i, ()))]
    return None


# ---------------------------------------------------------------- purity of calls that are not followed
PURE_PREFIX = ('bson::Bson::element_type', 'core::str::', 'bson::oid::ObjectId::to_hex', 'core::cmp::Ord::cmp',
               'core::num::', 'std::cmp::', 'std::cmp::Ordering::', 'core::cmp::Ordering::', 'core::cmp::PartialOrd::partial_cmp',
               'std::cmp::PartialOrd::partial_cmp', 'core::ptr::', 'std::ptr::')


def is_pure(name, d):
    return name.startswith(PURE_PREFIX) or d['d'].startswith(('core::num::', 'core::str::', 'core::cmp::', 'core::f64', 'core::ptr::const_ptr',
                                                               'core::ptr::mut_ptr', 'core::char'))


def calls_closure(name):
    return True


@m('alloc::vec::Vec::extend', 'core::iter::traits::collect::Extend::extend', 'std::iter::Extend::extend', 'std::vec::Vec::extend')
def extend_(I, st, d, args, info):
    """vec.extend(finite known iterator)"""
    if not I.mon.unroll:
        return None
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if v.op != 'agg' or v.args[0] != 'vec':
        return None
    x = args[1]
    if x.op == 'agg' and x.args[0] in ('vec', 'array'):
        x = it('list', T('agg', 'vec', 0, x.args[2]))
    if x.op == 'agg' and not str(x.args[0]).startswith('iter:') and x.args[0] == OPT:
        x = it('list', T('agg', 'vec', 0, x.args[2]))
    if not known_iter(x) or not _finite(x):
        return None
    out = []
    for s, a, dn in _consume(I, st, x, info, None, T('agg', 'vec', 0, ()), lambda s, acc, e: [(s, T('agg', 'vec', 0, acc.args[2] + (e,)), None)]):
        s = s.copy()
        I.store(s, r, p, T('agg', 'vec', 0, v.args[2] + a.args[2]))
        out.append((s, UNIT))
    return out


@m('alloc::vec::Vec::retain', 'std::vec::Vec::retain', 'indexmap::IndexMap::retain', 'std::collections::HashMap::retain')
def retain_(I, st, d, args, info):
    """Removes what the closure says, on a vector or map with known keys."""
    if not I.mon.unroll:
        return None
    r, p = I.deref_loc(args[0])
    v = I.load(st, r, p)
    if v.op == 'agg' and v.args[0] == 'vec':
        items = [(None, x) for x in v.args[2]]
    elif v.op in ('docins', 'docempty', 'docrem') and doc_items(v) is not None:
        items = list(doc_items(v))
    else:
        return None
    work = [(st, ())]
    for i, (k, x) in enumerate(items):
        nxt = []
        for s, kept in work:
            s = s.copy()
            h = T('H', info.sid, 0, 'retain%d' % i)
            s.mem[h] = x
            a = [T('ref', h, ())]
            if k is not None:
                a = [T('ref', T('V', k), ())] + a
            for s2, rv in I.call_value(s, args[1], a, info):
                if rv is DIVERGE:
                    continue
                kv = I.known(s2, rv)
                for val in (0, 1):
                    if kv is None or kv == val:
                        s3 = s2.copy()
                        if I.assume(s3, rv, val):
                            y = s3.mem.get(h, x)
                            nxt.append((s3, kept + (((k, y),) if val else ())))
        work = nxt
    out = []
    for s, kept in work:
        s = s.copy()
        if v.op == 'agg':
            n = T('agg', 'vec', 0, tuple(y for _, y in kept))
        else:
            n = T('docempty')
            for k, y in kept:
                n = T('docins', n, k, y)
        I.store(s, r, p, n)
        out.append((s, UNIT))
    return out


@m('core::iter::traits::iterator::Iterator::try_fold')
def try_fold_(I, st, d, args, info):
    v = args[0]
    r = p = None
    if v.op == 'ref':
        r, p = I.deref_loc(v)
        v = I.load(st, r, p)
    if not known_iter(v) or not _finite(v):
        return None

    def body(s, acc, e):
        out = []
        for s2, rv in I.call_value(s, args[2], [acc, e], info):
            if rv is DIVERGE:
                continue
            for s3, isok in split_result(I, s2, rv):
                out.append((s3, mk_field(rv, 0) if isok else acc, None if isok else rv))
        return out

    def mk_field(rv, i):
        return rv.args[2][0] if rv.op == 'agg' and len(rv.args[2]) == 1 else T('fld', rv, ('f', 0, i))
    tyname = info.body.crate.types[info.destty]['s']
    wrap = ok if 'Result' in tyname else None
    if wrap is None:
        return None
    return [(s, dn if dn is not None else wrap(a)) for s, a, dn in _consume(I, st, v, info, None, args[1], body)]
