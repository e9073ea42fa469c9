"""C31: update operators do what they say."""
from checks.c26 import *

Y = T('par', 'Y')
ADD = ('checked_add', 'Add', 'AddWithOverflow', 'saturating_add')
MUL = ('checked_mul', 'Mul', 'MulWithOverflow', 'saturating_mul')
NUM = ('Int32', 'Int64', 'Double')


def arithmetic(t):
    """The operation names in a number's term, and the unknowns it is made of."""
    names, leaves, work = set(), set(), [t]
    while work:
        x = work.pop()
        if not isinstance(x, Term):
            continue
        if x.op == 'par':
            leaves.add(x)
        elif x.op == 'bin':
            names.add(x.args[0])
            work.extend(x.args[1:])
        elif x.op == 'pure':
            names.add(str(x.args[0]).rsplit('::', 1)[-1])
            work.extend(x.args[1:])
        elif x.op == 'c':
            leaves.add(x)
        else:
            work.extend(a for a in x.args if isinstance(a, Term))
    return names, leaves


def number(t):
    return t.args[2][0] if t.op == 'agg' and t.args[0] == BS and len(t.args[2]) == 1 else None


def cases():
    """(operator, operand document, document before, judge(before map, after map, comparisons) -> complaint or None, wanted)."""
    out = []
    base = (('_id', ID), ('a', T('par', 'A0')))
    def d(*more):
        return doc(*(base + more))
    def keeps(x, y, names):
        for k in set(x) | set(y):
            if k not in names and x.get(k) is not y.get(k):
                return 'the field %s, which the update does not name, changes' % k
    def field(k, v):
        return lambda x, y, h: None if y.get(k) is v else '%s is %s afterwards' % (k, show(y[k])[:80] if k in y else 'missing')
    shapes = {'missing': d(), 'of any value': d(('b', B)), 'a number': d(('b', bson('Int32', T('par', 'cur')))), 'null': d(('b', bson('Null'))),
              'an array': d(('b', barr(T('par', 'e0'), T('par', 'e1'))))}
    for n, t in shapes.items():
        out.append(('$set', doc(('b', X)), t, 'b ' + n, field('b', X), ('b',)))
        out.append(('$unset', doc(('b', X)), t, 'b ' + n, lambda x, y, h: 'b is still there' if 'b' in y else None, ('b',)))
    out.append(('$set', doc(('b', X), ('c', Y)), d(('b', B)), 'two fields', lambda x, y, h: None if y.get('b') is X and y.get('c') is Y else 'b is %s and c is %s' % (show(y.get('b')), show(y.get('c'))), ('b', 'c')))
    out.append(('$unset', doc(('b', X), ('c', Y)), d(('b', B), ('c', X)), 'two fields', lambda x, y, h: 'a field is still there' if 'b' in y or 'c' in y else None, ('b', 'c')))
    for name, wants in (('$inc', ADD), ('$mul', MUL)):
        for k1 in NUM:
            for k2 in NUM:
                cur, opd = T('par', 'cur'), T('par', 'opd')
                def num(x, y, h, cur=cur, opd=opd, wants=wants, k1=k1, k2=k2):
                    v = number(y.get('b', ID))
                    if v is None:
                        return 'the result is not a number: %s' % show(y.get('b', ID))[:100]
                    names, leaves = arithmetic(v)
                    names = {m for m in names if m not in ('cast', 'from', 'into')}
                    if leaves != {cur, opd} or not names or not names <= set(wants):
                        return 'the result is %s' % show(v)[:140]
                    kind = [k for k in NUM if y['b'].args[1] == bson_variant(k)]
                    if 'Double' in (k1, k2) and kind != ['Double'] or 'Double' not in (k1, k2) and kind == ['Double']:
                        return 'the result of %s and %s is %s' % (k1, k2, kind)
                out.append((name, doc(('b', bson(k2, opd))), d(('b', bson(k1, cur))), '%s by %s' % (k1, k2), num, ('b',)))
    out.append(('$inc', doc(('b', bson('Int32', T('par', 'opd')))), d(), 'b missing', field('b', bson('Int32', T('par', 'opd'))), ('b',)))
    for name, sign in (('$max', 1), ('$min', -1)):
        def keep(x, y, h, sign=sign):
            c = [e for e in h if set(e[1:3]) == {X, B}]
            if len(c) != 1:
                return 'the operand and the value are compared %d times' % len(c)
            o = c[0][3] * (1 if c[0][1] is X else -1)
            want = X if o == sign else B
            return None if o == 0 or y.get('b') is want else 'the operand is %s and b is %s afterwards' % ({1: 'greater', -1: 'smaller'}[o], show(y.get('b'))[:60])
        out.append((name, doc(('b', X)), d(('b', B)), 'b of any value', keep, ('b',)))
    out.append(('$rename', doc(('b', bstr('d'))), d(('b', B)), 'b of any value', lambda x, y, h: None if 'b' not in y and y.get('d') is B else 'b is %s and d is %s' % (show(y.get('b', S_('missing'))), show(y.get('d', S_('missing')))), ('b', 'd')))
    out.append(('$rename', doc(('b', bstr('d'))), d(), 'b missing', lambda x, y, h: 'a field appears' if 'b' in y or 'd' in y else None, ('b', 'd')))
    out.append(('$rename', doc(('b', bstr('d'))), d(('b', B), ('d', Y)), 'both fields there', lambda x, y, h: None if 'b' not in y and y.get('d') is B else 'd is %s' % show(y.get('d', S_('missing'))), ('b', 'd')))
    for n in range(3):
        es = [T('par', 'e%d' % i) for i in range(n)]
        out.append(('$push', doc(('b', X)), d(('b', barr(*es))), 'an array of %d' % n, field('b', barr(*es, X)), ('b',)))
        for w in ('Int32', 'Int64'):
            out.append(('$pop', doc(('b', bson(w, I_(1)))), d(('b', barr(*es))), 'an array of %d' % n, field('b', barr(*es[:-1])), ('b',)))
            out.append(('$pop', doc(('b', bson(w, I_(-1)))), d(('b', barr(*es))), 'an array of %d' % n, field('b', barr(*es[1:])), ('b',)))
    out.append(('$push', doc(('b', X)), d(), 'b missing', field('b', barr(X)), ('b',)))
    return out, keeps


def renamed(t, m):
    """The term with unknowns and field names replaced."""
    if isinstance(t, tuple):
        return tuple(renamed(x, m) for x in t)
    if not isinstance(t, Term):
        return t
    if t.op == 'par':
        return T('par', m.get(t.args[0], t.args[0]))
    if t.op == 'c':
        return S_(m[t.args[1]]) if t.args[0] == 's' and t.args[1] in m else t
    return T(t.op, *(renamed(x, m) for x in t.args))


FIELDS = {'b': 'f', 'd': 'g', 'c': 'h'}


def pairs(tier='quick'):
    """The single-field cases of each operator, two at a time in one operand document: each field must come out as it does alone.
    [(operator, operand, before, what, [(judge, inverse renaming, fields of the other)])]"""
    cs, _ = cases()
    one_field = [c for c in cs if len(doc_items(c[1])) == 1]
    out = []
    names = sorted({c[0] for c in one_field})
    for name in names:
        mine = [c for c in one_field if c[0] == name]
        if name in ('$inc', '$mul') and tier == 'quick':
            mine = mine[:2] + mine[-1:]
        if name == '$pop' and tier == 'quick':
            mine = mine[::2]
        for x in mine:
            for y in mine:
                go = dict(FIELDS)
                for v in pars(y[1], y[2]):
                    if v is not ID and v is not T('par', 'A0'):
                        go[v.args[0]] = v.args[0] + "'"
                back = {b: a for a, b in go.items()}
                y1, y2 = renamed(y[1], go), renamed(y[2], go)
                bx = [(k.args[1], v) for k, v in doc_items(x[2])]
                by = [(k.args[1], v) for k, v in doc_items(y2) if k.args[1] not in ('_id', 'a')]
                opd = [(k.args[1], v) for k, v in doc_items(x[1])] + [(k.args[1], v) for k, v in doc_items(y1)]
                out.append((name, doc(*opd), doc(*(bx + by)), '%s with another field that is %s' % (x[3], y[3]), x, y, back))
    return out


def pair_problem(F, x, y, back, before, new, h):
    own = set(FIELDS.values())
    x0, y0 = doc_map(before), doc_map(new)
    if y0 is None:
        return 'the document afterwards is not known: %s' % show(new)[:120]
    for c, m, mine in ((x, {}, lambda f: f not in own), (y, back, lambda f: f in own or f in ('_id', 'a'))):
        second = m is back
        a = {m.get(f, f): renamed(v, m) for f, v in x0.items() if mine(f)}
        b = {m.get(f, f): renamed(v, m) for f, v in y0.items() if mine(f)}
        hh = tuple(renamed(e, m) for e in h if all(("'" in show(q)) == second for q in e[1:3]))
        for k in set(a) | set(b):
            if k not in c[5] and a.get(k) is not b.get(k):
                return 'the field %s, which the update does not name, changes' % k
        p = c[4](a, b, hh)
        if p:
            return '(%s) %s' % (c[3], p)


def pair_results(ctx, F):
    """(operator, what, problem, changed, reported, trace) for every successful path of the two-field cases."""
    for name, opd, before, what, x, y, back in pairs(ctx.tier):
        I, mon, res = compile_update(F, doc((name, bson('Document', opd))))
        n = 0
        for k, ops, s in res:
            if k != 'ok' or len(ops) != 1:
                continue
            I2, m2, r = apply(F, ops[0], bson('Document', before), s)
            ctx.absorb(I2)
            for k2, u, new, h, s2 in r:
                if k2 != 'ok':
                    continue
                n += 1
                yield name, what, pair_problem(F, x, y, back, before, new, h), not same_doc(bson('Document', before), new), u, I2.trace(s2)
        if not n:
            yield name, what, 'never succeeds', False, None, ()


def check(ctx):
    F = ctx.F
    setup(F)
    ctx.rule('Every update operator, as the generator compiles it from an update document, is applied abstractly to documents of known fields and '
             'unknown values; on every successful path the document afterwards must be the one the operator describes, as a term: the operand, '
             'the sum or product of the stored number and the operand, the greater or smaller of the two by the one comparison made, the '
             'moved value, the array with one element more or less; an operand naming two fields must treat each as it does alone; every field the update does not name must hold the same value.')
    cs, keeps = cases()
    for name, opd, before, what, judge, names in cs:
        I, mon, res = compile_update(F, doc((name, bson('Document', opd))))
        ctx.absorb(I)
        n = 0
        for k, x, s in res:
            if k != 'ok':
                continue
            if len(x) != 1:
                ctx.viol('compile:%s' % name, '{%s: ...} compiles to %d operators' % (name, len(x)))
                continue
            I2, m2, r = apply(F, x[0], bson('Document', before), s)
            ctx.absorb(I2)
            for w, _ in m2.panics:
                ctx.viol('panic:%s' % name, '%s on %s can panic at %s' % (name, what, w))
            for k2, u, new, h, s2 in r:
                if k2 != 'ok':
                    continue
                n += 1
                ctx.count('paths')
                x0, y0 = doc_map(before), doc_map(new)
                p = 'the document afterwards is not known: %s' % show(new)[:120] if y0 is None else keeps(x0, y0, names) or judge(x0, y0, h)
                if p:
                    ctx.viol('%s:%s' % (name, what.replace(' ', '-')), '%s, %s: %s' % (name, what, p), I2.trace(s2))
        ctx.count('cases')
        if not n:
            ctx.viol('%s:%s' % (name, what.replace(' ', '-')), '%s, %s: never succeeds' % (name, what))
    for name, what, p, _, _, tr in pair_results(ctx, F):
        ctx.count('two_field_paths')
        if p:
            ctx.viol('%s:two-fields' % name, '%s naming two fields, %s: %s' % (name, what, p), tr)
    ctx.floor('two_field_paths', 80)
    ctx.floor('cases', 45)
    ctx.floor('paths', 50)
