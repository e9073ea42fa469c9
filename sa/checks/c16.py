"""C16: generated programs are decoded the way they were encoded."""
from query import *
from isa import observe, PC

V = lambda n: bson('ObjectId', T('par', 'v:' + n))
WIDTH = {'u8': 1, 'u32': 4, 'i32': 4, 'u64': 8, 'u16': 2, 'bool': 1, 'i8': 1}


def last(t):
    return t.rsplit('::', 1)[-1]


class GenMon(EmitMon):
    """Also records which label each emitted jump names. Monitor state: ((position, instruction or None, label id, function), ...)."""

    def __init__(self, F):
        EmitMon.__init__(self, F)
        self.prog = adt_named(F, 'SubProgram')
        self.instr = [f[0] for f in F.adts[self.prog]['v'][0][2]].index('instructions')

    def call(self, I, st, fn, args, info):
        b = I.resolve(st, fn, args)
        if b is not None and b.crate is self.F.core and b.argc >= 2:
            ts = [last(ty_s(b, i)) for i in range(1, b.argc + 1)]
            if 'Label' in ts:
                lab = I.deepval(st, args[ts.index('Label')])
                op = I.deepval(st, args[ts.index('DbOp')]) if 'DbOp' in ts else None
                st = st.copy()
                st.mon = st.mon + ((self.length(I.deepval(st, args[0])), op, lab, b.name),)
                return I.enter(b, args, st, info)
        return EmitMon.call(self, I, st, fn, args, info)

    def length(self, gen):
        work, seen = [gen], set()
        while work:
            t = work.pop(0)
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'agg' and t.args[0] == self.prog:
                v = t.args[2][self.instr]
                return len(v.args[2]) if v.op == 'agg' else None
            work.extend(x for y in t.args for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, Term))
        return None


class PrintMon(MachineMon):
    """The disassembler at work. Monitor state: (0, events): ('at', position, instruction), ('operand', position, width), ('text', pieces)."""

    def model(self, I, st, fn, args, info):
        n, p = fn.get('n') or '', fn.get('p') or ''
        if n in ('write_fmt', 'write_str', 'write_char', 'pad'):
            return [(st, mk_ok(UNIT))]
        b = I.resolve(st, fn, args)
        if b is not None and b.crate is self.F.core:
            t = ty_s(b, 0)
            if last(t) == 'String':
                return [(st, T('par', 'text'))]
            if t.startswith('std::result::Result<std::string::String,'):
                return [(st, mk_ok(T('par', 'text')))]
        return None

    def read_code(self, I, st, ptr, info):
        k = self.pos(I, st, ptr)
        ty = info.body.crate.types[info.destty]
        st = st.copy()
        if k is None:
            self.push(st, 'bad', 'reads at an unknown position')
            return self.stop(st, 'bad')
        bs = [x.args[1] for x in self.code.args[2]]
        isop = ty.get('adt') == self.dbop
        w = 1 if isop else WIDTH.get(ty['s'])
        if w is None or k + w > len(bs):
            self.push(st, 'bad', 'reads %s bytes at %d of a program of %d' % (w, k, len(bs)))
            return self.stop(st, 'bad')
        if isop:
            for i, v in enumerate(self.F.adts[self.dbop]['v']):
                if v[1] == bs[k]:
                    self.push(st, 'at', k, v[0])
                    return [(st, T('agg', self.dbop, i, ()))]
            self.push(st, 'bad', 'byte %d, %d, is not an instruction' % (k, bs[k]))
            return self.stop(st, 'bad')
        self.push(st, 'operand', k, w)
        return [(st, I_(int.from_bytes(bytes(bs[k:k + w]), 'little')))]


def display_body(F):
    adt = adt_named(F, 'SubProgram')
    bs = [b for b in F.core.bodies if b.promoted is None and b.kind == 'AssocFn' and b.name == 'fmt' and b.trait and last(b.trait) == 'Display'
          and isinstance(b.self_ty, int) and b.crate.types[b.self_ty].get('adt') == adt]
    if len(bs) != 1:
        raise Missing('the disassembler: Display of SubProgram (found %d)' % len(bs))
    return bs[0]


def disassemble(F, program):
    """[(events, finished?)] of printing the program."""
    b = display_body(F)
    mon = PrintMon(F, program, [])
    I = Interp(F, mon)
    I.pin = tuple(sorted(pars(program), key=str))
    st = St()
    st.mon = (0, ())
    outs = I.run(b, [vref(program), T('par', 'formatter')], st, I.ctx(None, 0, b))
    return I, [(mon.ev(s), True) for s, r in outs] + [(mon.ev(s), False) for s, why in mon.ends], mon.panics


def code_of(F, program):
    adt = adt_named(F, 'SubProgram')
    v = program.args[2][[f[0] for f in F.adts[adt]['v'][0][2]].index('instructions')]
    return [x.args[1] for x in v.args[2]] if v.op == 'agg' and all(x.op == 'c' for x in v.args[2]) else None


def instruction_set(F, ctx):
    """What the machine does with each instruction: name -> (length, {(offset, width)}, {offset of a jump operand})."""
    out = {}
    for v in F.adts[adt_named(F, 'DbOp')]['v']:
        op = v[0]
        I, mon, ends = observe(F, op)
        ctx.absorb(I)
        reads, jumps, falls = set(), set(), set()
        for a, w in mon.reads:
            if a.op == 'pure' and a.args[0] == 'at' and a.args[1] is PC and a.args[2].op == 'c' and w in WIDTH:
                reads.add((a.args[2].args[1], WIDTH[w]))
        for s, r, d in ends:
            pc = d.get('pc')
            if pc is None or pc.op != 'pure' or pc.args[0] != 'at':
                continue
            if pc.args[1] is PC and pc.args[2].op == 'c':
                falls.add(pc.args[2].args[1])
            elif pc.args[2].op == 'pure' and pc.args[2].args[0] == 'operand':
                jumps.add(pc.args[2].args[1].args[2].args[1])
        ctx.count('machine_arms')
        if not ends:
            ctx.viol('unhandled:%s' % op, 'the machine has no way to finish the instruction %s' % op)
        if len(falls) > 1:
            ctx.viol('length:%s' % op, 'the machine advances by %s over %s, depending on the path' % (sorted(falls), op))
        need = 1 + sum(w for _, w in reads)
        n = min(falls) if falls else need
        if reads and (max(o + w for o, w in reads) > n or need != n and op != 'Label'):
            ctx.viol('operands:%s' % op, 'the machine reads operands %s of %s, which it takes to be %d bytes long' % (sorted(reads), op, n))
        out[op] = (n, reads, jumps, bool(falls))
    return out


def queries():
    A, B, C = V('A'), V('B'), V('C')
    R = lambda k: bson(k, T('par', k))
    out = [('{}', q()), ('{a}', q(('a', A))), ('{_id}', q(('_id', A))), ('{a, b}', q(('a', A), ('b', B))),
           ('$and', q(AND(q(('a', A)), q(('b', ops(('$gt', B))))))), ('$or', q(OR(q(('a', A)), q(('b', B), ('c', ops(('$lt', C)))))))]
    for o in ('$eq', '$ne', '$gt', '$gte', '$lt', '$lte'):
        out.append((o, q(('a', ops((o, A))))))
    out.append(('$in', q(('a', ops(('$in', ('arr', (A, B))))))))
    out.append(('$nin', q(('a', ops(('$nin', ('arr', (A, B))))))))
    out.append(('$all', q(('a', ops(('$all', ('arr', (A, B))))))))
    out.append(('$size', q(('a', ops(('$size', 2))))))
    out.append(('$not', q(('a', ops(('$not', ops(('$gt', A), ('$lt', B))))))))
    out.append(('dotted', q(('a.b.c', A), ('a.b.d', ops(('$gt', B))))))
    out.append(('nested', q(OR(q(AND(q(('a', A)), q(OR(q(('b', B)), q(('c', C)))))), q(('b', ops(('$gte', C)), ))))))
    return out


UPDATES = lambda: [doc(('$set', bdoc(('a', V('A')), ('b', V('B'))))), doc(('$unset', bdoc(('a', V('A'))))), doc(('$inc', bdoc(('a', bson('Int32', I_(1)))))),
                   doc(('$max', bdoc(('a', V('A')))), ('$min', bdoc(('b', V('B'))))), doc(('$rename', bdoc(('a', bstr('c'))))),
                   doc(('$push', bdoc(('a', V('A')))), ('$set', bdoc(('b', V('B')))), ('$mul', bdoc(('c', bson('Int64', I_(2))))))]


def stages():
    i = lambda n: bson('Int64', I_(n))
    return {'$match': bdoc(('a', V('A'))), '$count': bstr('n'), '$skip': i(1), '$limit': i(2), '$sort': bdoc(('a', bson('Int32', I_(1))), ('b', bson('Int32', I_(-1)))),
            '$group': bdoc(('_id', bstr('$a')), ('s', bdoc(('$sum', bson('Int32', I_(1)))))), '$unset': bstr('a'), '$addFields': bdoc(('z', bdoc(('$abs', bstr('$a')))))}


def pipelines():
    s = stages()
    one_ = [(n,) for n in s]
    two = [(a, b) for a in s for b in s if b != '$match'][::3]
    return one_ + two + [('$match', '$sort', '$group'), ('$match', '$skip', '$limit', '$count'), ('$unset', '$addFields', '$sort')]


def programs(F, tier):
    """[(description, compile function, arguments)]"""
    out = []
    pats = {n: one(F, r'.*SubProgram::%s' % n) for n in ('compile_query', 'compile_update', 'compile_delete', 'compile_delete_all', 'compile_aggregate')}
    for ixs in ((), (('ia', 'a'),), (('ia', 'a'), ('ib', 'b'))):
        spec = spec_of(F, ixs)
        for name, qu in queries():
            out.append(('query %s' % name, pats['compile_query'], compile_args(F, pats['compile_query'], spec, doc_term(qu))))
        for name, qu in queries()[:8]:
            for m in (0, 1):
                out.append(('delete %s' % name, pats['compile_delete'], compile_args(F, pats['compile_delete'], spec, doc_term(qu), m)))
                for k, u in enumerate(UPDATES()):
                    if tier == 'thorough' or k in (0, 5) or name == '{a}':
                        out.append(('update %s of %s' % (k, name), pats['compile_update'], compile_args(F, pats['compile_update'], spec, doc_term(qu), m, u)))
        out.append(('delete all', pats['compile_delete_all'], compile_args(F, pats['compile_delete_all'], spec, doc())))
    s = stages()
    for p in pipelines():
        out.append(('pipeline %s' % ' '.join(p), pats['compile_aggregate'], compile_args(F, pats['compile_aggregate'], spec_of(F, ()), doc(), pipeline=[doc((n, s[n])) for n in p])))
    # annotated, as the disassembler prints them
    return [(d + (', annotated' if skip == 0 else ''), b, [I_(skip) if ty_s(b, i) == 'bool' and not any(ty_s(b, j) == 'bool' for j in range(1, i)) else a for i, a in zip(range(1, b.argc + 1), args)])
            for d, b, args in out for skip in ((1, 0) if hash_even(d) or tier == 'thorough' else (1,))]


def hash_even(d):
    return sum(map(ord, d)) % 2 == 0


def judge(F, k):
    d, b, args = programs(F, TIER)[k]
    mon = GenMon(F)
    I = Interp(F, mon)
    I.pin = tuple(args)
    st = St()
    st.mon = ()
    bad, n, ninst, njump = [], 0, 0, 0
    used = set()
    names = [v[0] for v in F.adts[adt_named(F, 'DbOp')]['v']]
    val = {v[1]: v[0] for v in F.adts[adt_named(F, 'DbOp')]['v']}
    sadt = adt_named(F, 'SubProgram')
    sf = [f[0] for f in F.adts[sadt]['v'][0][2]]
    for s, r in I.run(b, args, st, I.ctx(None, 0, b)):
        if result_kind(r, s, I) != 'ok':
            continue
        v = I.deepval(s, r, 14)
        program = v.args[2][0] if v.op == 'agg' and v.args[0] != sadt and v.args[2] else v
        n += 1
        code = code_of(F, program)
        if code is None:
            bad.append(('code', 'the byte code is not known'))
            continue
        at, p = {}, 0
        while p < len(code):
            op = val.get(code[p])
            if op is None:
                bad.append(('stream', 'at %d, read with the lengths of the machine, is %d, which is no instruction' % (p, code[p])))
                break
            at[p] = op
            used.add(op)
            p += ISA[op][0]
        else:
            if p != len(code):
                bad.append(('stream', 'the last instruction ends at %d, the program at %d' % (p, len(code))))
        ninst += len(at)
        u32 = lambda o: int.from_bytes(bytes(code[o:o + 4]), 'little')
        final = at[max(at)]
        if ISA[final][3] and final != 'Halt':
            bad.append(('end', 'the program ends with %s, so the machine runs past its end' % final))
        labels = {u32(p + 1): p for p, op in at.items() if op == 'Label'}
        slots = program.args[2][sf.index('label_slots')]
        for p, op in at.items():
            for o in ISA[op][2]:
                t = u32(p + o)
                njump += 1
                if at.get(t) is None:
                    bad.append(('jump', '%s at %d jumps to %d, which is not the start of an instruction' % (op, p, t)))
                elif at[t] != 'Label':
                    bad.append(('jump', '%s at %d jumps to %d, a %s and not a label' % (op, p, t, at[t])))
        for p, i in [(p, u32(p + 1)) for p, op in at.items() if op == 'Label']:
            if slots.op == 'agg':
                x = slots.args[2][i] if i < len(slots.args[2]) else None
                if x is None or not x.args[2] or x.args[2][0] is not I_(p):
                    bad.append(('slot', 'the label %d is at %d, and recorded as %s' % (i, p, show(x) if x is not None else 'missing')))
        for p, op, lab, fname in s.mon:
            i = lab.args[2][0].args[1] if lab.op == 'agg' and lab.args[2][0].op == 'c' else lab.args[1] if lab.op == 'c' else None
            if p is None or i is None:
                bad.append(('label', '%s is called with a label or at a position that is not known' % fname))
            elif op is not None and op.op == 'agg':
                o = names[op.args[1]]
                if at.get(p) != o:
                    bad.append(('label', '%s emits %s at %d, where the machine finds %s' % (fname, o, p, at.get(p))))
                elif ISA[o][2] and any(u32(p + x) != labels.get(i) for x in ISA[o][2]):
                    bad.append(('target', '%s at %d names label %d, which is at %s, and jumps to %s' % (o, p, i, labels.get(i), [u32(p + x) for x in ISA[o][2]])))
            elif i not in labels:
                bad.append(('target', '%s names label %d, which is nowhere in the program' % (fname, i)))
        # the disassembler
        I2, runs, panics = disassemble(F, program)
        for w, tr in panics:
            bad.append(('print-panic', 'printing the program can panic at %s' % w))
        for ev, done in runs:
            for e in ev:
                if e[0] == 'bad':
                    bad.append(('print', 'the disassembler %s' % e[1]))
            seen = [e[1] for e in ev if e[0] == 'at']
            if done and seen != sorted(at):
                x = next((a for a, c in zip(seen + [None], sorted(at) + [None]) if a != c), None)
                bad.append(('print', 'the disassembler takes %s to be the start of an instruction' % x))
            for e in ev:
                if e[0] == 'operand':
                    p = max((x for x in at if x <= e[1]), default=0)
                    want = ISA[at[p]][1] or ({(1, 4)} if at[p] == 'Label' else set())
                    if (e[1] - p, e[2]) not in want:
                        bad.append(('print-operand:%s' % at[p], 'the disassembler reads %d bytes at offset %d of %s' % (e[2], e[1] - p, at[p])))
        if not runs:
            bad.append(('print', 'the disassembler never finishes'))
    if not n:
        bad.append(('compile', 'never compiles'))
    return {'bad': sorted(set(bad)), 'programs': n, 'instructions': ninst, 'jumps': njump, 'used': sorted(used)}


def single(F, op):
    """Printing a program of this one instruction and the end."""
    n, reads, jumps, falls = ISA[op]
    val = {v[0]: v[1] for v in F.adts[adt_named(F, 'DbOp')]['v']}
    adt = adt_named(F, 'SubProgram')
    lab = adt_named(F, 'LabelSlot')
    code = [val[op]] + [0] * (n - 1) + [val['Halt']]
    i = [v[0] for v in F.adts[lab]['v']].index('UnnamedLabel')
    g = adt_named(F, 'GlobalVariableSlot')
    table = {'instructions': arr_of(*map(I_, code)), 'label_slots': arr_of(T('agg', lab, i, (I_(0),))), 'global_variables': arr_of()}
    table['static_values'] = arr_of(bstr('x'), bstr('y'))
    program = T('agg', adt, 0, tuple(table.get(f[0]) or arr_of(*[T('par', '%s%d' % (f[0], k)) for k in range(2)]) for f in F.adts[adt]['v'][0][2]))
    I, runs, panics = disassemble(F, program)
    bad = [('print-panic:%s' % op, 'printing %s can panic at %s' % (op, w)) for w, _ in panics]
    for ev, done in runs:
        bad += [('print:%s' % op, 'printing %s: %s' % (op, e[1])) for e in ev if e[0] == 'bad']
        seen = [e[1] for e in ev if e[0] == 'at']
        if done and seen == [0] and not bad:
            return []                  # stops there: reported if such an instruction is ever generated
        if done and seen != [0, n]:
            bad.append(('print:%s' % op, 'the machine takes %s to be %d bytes long; the disassembler reads instructions at %s of %s' % (op, n, seen, [op, 'Halt'])))
        ro = {(e[1], e[2]) for e in ev if e[0] == 'operand'}
        want = reads or ({(1, n - 1)} if n > 1 else set())
        if done and not ro <= want:
            bad.append(('print-operand:%s' % op, 'the disassembler reads operands %s of %s, the machine %s' % (sorted(ro), op, sorted(want))))
    if not [1 for ev, done in runs if done] and not bad:
        bad.append(('print:%s' % op, 'printing %s never finishes' % op))
    return bad


def check(ctx):
    global ISA, TIER
    F = ctx.F
    TIER = ctx.tier
    setup(F)
    ctx.rule('(1) Every instruction is executed abstractly on the machine: how far it advances, which operand bytes it reads and which of them '
             'become the program counter. (2) Every instruction is printed abstractly by the disassembler: it must take it to be exactly as long '
             'and read operands at the same places. (3) Programs for queries, updates, deletes and pipelines are generated abstractly, with '
             'unknown values: read with the machine\'s lengths they must decompose into instructions up to their end, not fall off it, every jump must '
             'lead to the label instruction of the label named where it was emitted, every label lie where its slot says; printed, they must '
             'decompose the same way.')
    ISA = instruction_set(F, ctx)
    for op in ISA:
        for k, d in single(F, op):
            ctx.viol(k, d)
        ctx.count('printed_instructions')
    ps = programs(F, ctx.tier)
    used = set()
    for (d, b, _), r in zip(ps, parallel(F, judge, list(range(len(ps))))):
        for k, x in r['bad']:
            ctx.viol('%s:%s' % (k, b.name), '%s (%s): %s' % (b.name, d, x))
        ctx.count('programs', r['programs'])
        ctx.count('instructions', r['instructions'])
        ctx.count('jumps', r['jumps'])
        used |= set(r['used'])
    ctx.count('instructions_used', len(used))
    ctx.sample('instruction lengths: %s' % {k: v[0] for k, v in sorted(ISA.items())})
    ctx.floor('programs', 150)
    ctx.floor('jumps', 500)
    ctx.floor('instructions_used', 25)
    ctx.floor('machine_arms', 40)
