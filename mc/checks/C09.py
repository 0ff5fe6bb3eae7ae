"""Histories: what a call returns never depends on the calls before it, and no two results share state."""
import itertools
from .. import domains as D, codec as K, model as M, lib as L
from ..model import *        # noqa
PROPERTY = 'C09'
RULE = ('all sequences of operations up to the depth bound over one shared spec object, one long-lived message object and the last '
        'decoded object: encode of fresh values, encode of the long-lived object, decode with the shared spec / a fresh one, decode of '
        'truncated and of malformed bytes, refused values, to_dict, str, component reads, deep in-place modification of the decoded '
        'object; every step and a closing probe of every object are compared with the (history-free) model.  The same over two types '
        'that carry the same class name (two versions of one schema)')
ASSUMPTIONS = ['one thread (C10 explores interleavings)',
               'sequences run one after the other in a worker process, each with freshly built classes: state kept at module level '
               'therefore sees an even longer history']

B, I3, I8, OV, IU, BV = D.B, D.I3, D.I8, D.OV, D.IU, D.BV
EN = D.LEAVES['EN'][0]


def universe():
    inner = Seq((Field('q', I3, True), Field('w', BV, False, '01')), ())
    lst = SeqOf(I8, 0, 3)
    yield 'int', Int(0, 300), [5, 300, 0]
    yield 'intu', IU, [-129, 0, 70000]
    yield 'intx', Int(1, 6, True), [1, 200]
    yield 'enum', EN, ['x', 'g', 'r']
    yield 'bits', BV, ['01', '', '111']
    yield 'bitsu', Bits(), ['01', '0000000000000000001']
    yield 'octs', OV, [b'\x00\x7f', b'', b'\x01\x02\x03']
    yield 'octx', Octs(1, 2, True), [b'\x01', b'\x01\x02\x03\x04']
    yield 'seq.opt', Seq((Field('a', B), Field('b', I8, True), Field('c', OV, True)), None), \
        [{'a': True}, {'a': False, 'b': 7}, {'a': True, 'b': 8, 'c': b'\x09'}]
    yield 'seq.def', Seq((Field('a', I3, False, 4), Field('b', OV, False, b'\x01'), Field('e', EN, False, 'g')), None), \
        [{}, {'a': 5, 'e': 'x'}, {'b': b'\x02\x03'}]
    yield 'seq.deflist', Seq((Field('a', B), Field('l', lst, False, (1, 2)), Field('n', inner, True)), None), \
        [{'a': True}, {'a': True, 'l': [9]}, {'a': False, 'l': [], 'n': {'q': 3}}]
    yield 'seq.ext', Seq((Field('a', B),), (Field('b', I8), Field('c', OV, True), Group(Field('d', I3), Field('e', B, True)))), \
        [{'a': True}, {'a': True, 'b': 1, 'c': b'\x04'}, {'a': False, 'b': 2, 'd': 3, 'e': True}]
    yield 'seq.nest', Seq((Field('s', inner), Field('t', Seq((Field('u', I8), Field('v', lst, True)), None), True)), None), \
        [{'s': {'q': 1}}, {'s': {'w': '1'}, 't': {'u': 4, 'v': [1, 2]}}, {'s': {'q': 2}, 't': {'u': 5}}]
    yield 'list', lst, [[], [1], [2, 3, 4]]
    yield 'list.seq', SeqOf(Seq((Field('a', I3, True), Field('b', B)), None)), \
        [[{'b': True}], [], [{'a': 1, 'b': False}, {'b': True}]]
    yield 'list.list', SeqOf(SeqOf(I3, 0, 2), 0, 2), [[[1], []], [], [[2, 3], [4]]]
    yield 'choice', Choice((('a', I8), ('s', inner), ('l', lst)), (('x', OV), ('y', I3))), \
        [('a', 3), ('s', {'q': 2}), ('l', [1]), ('x', b'\x05')]
    yield 'seq.choice', Seq((Field('c', Choice((('a', I8), ('b', SeqOf(B, 0, 2))), ())), Field('d', Choice((('a', I8), ('b', B)), None), True)), None), \
        [{'c': ('a', 1)}, {'c': ('b', [True]), 'd': ('b', False)}, {'c': ('b', []), 'd': ('a', 7)}]


# types of the same name, as two versions of one schema give
PAIRS = [
    (Int(0, 7), [5], Int(0, 70000), [5, 66000]),
    (Int(0, 255), [5], Int(0, 255, True), [5, 300]),
    (Enum((('a', 0), ('b', 1)), None), ['b'], Enum((('b', 0), ('a', 1), ('c', 2)), ()), ['b', 'c']),
    (Octs(1, 2), [b'\x01'], Octs(), [b'\x01', b'\x01\x02\x03']),
    (Bits(3, 3), ['101'], Bits(0, 20), ['101', '1' * 17]),
    (Seq((Field('a', B), Field('b', I8, True)), None), [{'a': True}, {'a': True, 'b': 3}],
     Seq((Field('b', I8), Field('a', B, True)), ()), [{'b': 3}, {'a': True, 'b': 3}]),
    (Seq((Field('a', I3, False, 1),), None), [{}, {'a': 2}], Seq((Field('a', I3, False, 2),), None), [{}, {'a': 1}]),
    (Seq((Field('a', B),), ()), [{'a': True}], Seq((Field('a', B),), (Field('x', I8, True), Group(Field('y', I3)))), [{'a': True, 'x': 4}, {'a': True, 'y': 2}]),
    (SeqOf(I3), [[1, 2]], SeqOf(I8, 0, 2), [[1, 2], []]),
    (SeqOf(B, 2, 2), [[True, False]], SeqOf(B, 0, 5, True), [[True, False], [True] * 6]),
    (Choice((('a', I8), ('b', B)), None), [('a', 3)], Choice((('b', B),), (('a', I8),)), [('a', 3), ('b', True)]),
]


def garbage(t):
    """a byte string that is not a message of t, if a short one exists"""
    for n in (1, 2):
        for b in itertools.product((0, 0x80, 0xff, 0x40, 0xc0, 0x20, 0xe0), repeat=n):
            try:
                M.decode(t, bytes(b))
            except M.Malformed:
                return bytes(b)
            except (M.Short, M.DontCare):
                continue
    return None


def invalid(t):
    """an abstract value that is not one of t"""
    k = t[0]
    if k == 'Int' and not t.ext:
        return (t.ub + 1,) if t.ub is not None else None
    if k in ('Bits', 'Octs') and not t.ext and t.ub is not None:
        return (('0' if k == 'Bits' else b'0') * (t.ub + 1),)
    if k == 'Enum':
        return ('nosuch',)
    if k == 'Seq':
        for f in t.root:
            if not f.opt and not f.has_default and f.type[0] not in ('Seq',):
                return ({},)
        for f in t.root:
            i = invalid(f.type)
            if i:
                return ({f.name: i[0]},)
    if k == 'SeqOf':
        if t.ub is not None and not t.ext:
            return ([D.vals(t.elem)[0]] * (t.ub + 1),)
        i = invalid(t.elem)
        return ([i[0]],) if i else None
    if k == 'Choice':
        return (('a', 999),)
    return None


def other(t, v):
    for x in D.vals(t):
        if M.norm(t, x) != M.norm(t, v):
            try:
                M.encode(t, x)
                return x
            except M.Reject:
                pass
    return v


def mutate(t, v, o):
    """change o (value v) in place, everywhere; -> its new abstract value"""
    k = t[0]
    if k == 'Seq':
        out = {}
        root = {f.name for f in t.root}
        for f in M.fields(t):
            if f.name in v or f.has_default:
                x = v[f.name] if f.name in v else M.thaw(f.type, f.default)
                if f.type[0] in ('Seq', 'SeqOf', 'Choice'):
                    out[f.name] = mutate(f.type, x, o[f.name])
                else:
                    y = other(f.type, x)
                    o[f.name] = L.make(f.type, y, L._sub(o, f.name))
                    out[f.name] = y
            elif f.opt and f.name in root:
                y = D.vals(f.type)[-1]
                o[f.name] = L.make(f.type, y, L._sub(o, f.name))
                out[f.name] = y
        return out
    if k == 'SeqOf':
        out = list(v)
        if out and t.elem[0] in ('Seq', 'SeqOf', 'Choice'):
            out[0] = mutate(t.elem, out[0], o[0])
        elif out:
            out[0] = other(t.elem, out[0])
            o[0] = L.make(t.elem, out[0], o.componentType.__class__)
        if M.in_size(len(out) + 1, t.lb, t.ub):
            y = D.vals(t.elem)[0]
            o.append(L.make(t.elem, y, o.componentType.__class__))
            out.append(y)
        return out
    if k == 'Choice':
        ty = dict(M.alternatives(t))[v[0]]
        if ty[0] in ('Seq', 'SeqOf', 'Choice'):
            return (v[0], mutate(ty, v[1], o[v[0]]))
        n, ty = [a for a in M.alternatives(t) if a[0] != v[0]][0]
        y = D.vals(ty)[0]
        o[n] = L.make(ty, y, L._sub(o, n))
        return (n, y)
    return v


def touch(t, o, deep=False):
    """read every component the way a user prints or inspects a message (deep: also the insides of absent ones)"""
    k = t[0]
    if k == 'Seq':
        for f in M.fields(t):
            there = o.getComponentByName(f.name, instantiate=False) is not L.noValue
            c = o[f.name]
            f.name in o
            if f.type[0] in ('Seq', 'SeqOf', 'Choice') and (there or deep):
                touch(f.type, c, deep)
        list(o.items())
        len(o)
    elif k == 'SeqOf':
        for i in range(len(o)):
            touch(t.elem, o[i], deep)
        len(o)
        list(o)
    elif k == 'Choice':
        if o.isValue:
            o.getName()
            touch(dict(M.alternatives(t))[o.getName()], o.getComponent(), deep)
    else:
        repr(o)
        str(o)


class World:
    """one run: the implementation objects and, next to each, the abstract value the model says it has"""

    def __init__(self, t, vs):
        self.t, self.vs = t, vs
        self.c = L.fresh_cls(t)
        self.c.__name__ = 'Message'
        self.spec = self.c()
        self.keep = L.make(t, vs[0], self.c)
        self.last = None
        self.lastv = None
        self.prev = None
        self.prevv = None
        self.snap()

    def snap(self):
        self.seen = [(n, o, repr(o)) for n, o in (('spec', self.spec), ('long-lived object', self.keep), ('decoded object', self.last),
                                                  ('earlier decoded object', self.prev)) if o is not None]

    def unchanged(self, op):
        """no call but a component read (pyasn1 instantiates what is read) or a modification changes what an object shows"""
        for n, o, r in self.seen:
            if not (op == 'R' and (o is self.keep or o is self.last) or op == 'M' and o is self.last):
                eq('repr of the ' + n, repr(o), r)
        self.snap()


def static(t, vs):
    """what is computed once per type: reference messages, truncated, malformed, invalid"""
    msgs = [M.encode(t, v) for v in vs]
    x = None
    for m in msgs:
        for i in range(len(m) - 1, -1, -1):
            try:
                M.decode(t, m[:i])
            except M.Short:
                x = m[:i]
                break
            except (M.Malformed, M.DontCare):
                continue
        if x is not None:
            break
    return dict(msgs=msgs, norms=[M.norm(t, v) for v in vs], trunc=x, garb=garbage(t), inv=invalid(t),
                dicts=[M.to_dict(t, v) for v in vs])


def ops_of(t, vs, st):
    o = []
    for i in range(len(vs)):
        o += [('E', i), ('D', i)]
    o += [('K',), ('C', len(vs) - 1), ('T',), ('R',), ('P',), ('M',), ('L',)]
    if st['trunc'] is not None:
        o.append(('X',))
    if st['garb'] is not None:
        o.append(('G',))
    if st['inv'] is not None:
        o.append(('V',))
    return o


class Diff(Exception):
    pass


def eq(what, got, want):
    if got != want:
        raise Diff('%s is %s, expected %s' % (what, K.short(got), K.short(want)))


def must_raise(what, f):
    try:
        r = f()
    except Exception:
        return
    raise Diff('%s did not raise but gave %s' % (what, K.short(r)))


def step(w, st, op):
    t, c = w.t, w.c
    k = op[0]
    if k == 'E':
        eq('encode(value %d)' % op[1], L.encode(L.make(t, w.vs[op[1]], c)), st['msgs'][op[1]])
    elif k in 'DC':
        o = L.decode(st['msgs'][op[1]], asn1Spec=w.spec if k == 'D' else c())
        eq('decode(message %d)' % op[1], L.read(t, o), st['norms'][op[1]])
        w.prev, w.prevv = w.last, w.lastv
        w.last, w.lastv = o, st['norms'][op[1]]
    elif k == 'K':
        eq('encode(long-lived object)', L.encode(w.keep), st['msgs'][0])
    elif k == 'T':
        eq('to_dict(long-lived object)', w.keep.to_dict(), st['dicts'][0])
    elif k == 'L':
        if w.last is not None:
            eq('to_dict(decoded object)', w.last.to_dict(), M.to_dict(t, w.lastv))
    elif k == 'R':
        touch(t, w.keep)
        if w.last is not None:
            touch(t, w.last)
    elif k == 'P':
        str(w.keep)
        repr(w.keep)
        w.keep.prettyPrint()
        repr(w.spec)
        w.spec.isValue
        if w.last is not None:
            str(w.last)
            w.last.prettyPrint()
    elif k == 'M':
        if w.last is not None and t[0] in ('Seq', 'SeqOf', 'Choice'):
            w.lastv = M.norm(t, mutate(t, w.lastv, w.last))
            eq('the modified object', L.read(t, w.last), w.lastv)
    elif k == 'X':
        must_raise('decode(truncated)', lambda: L.decode(st['trunc'], asn1Spec=w.spec))
    elif k == 'G':
        must_raise('decode(malformed)', lambda: L.decode(st['garb'], asn1Spec=w.spec))
    elif k == 'V':
        must_raise('building and encoding an invalid value', lambda: L.encode(L.make(t, st['inv'][0], c)))


def enc_or(t, v):
    try:
        return M.encode(t, v)
    except (M.Reject, M.DontCare):
        return None


def probe(w, st):
    """closing look at every object"""
    t = w.t
    eq('encode(long-lived object) at the end', L.encode(w.keep), st['msgs'][0])
    for o, v, n in ((w.last, w.lastv, 'decoded object'), (w.prev, w.prevv, 'decoded object before the last')):
        if o is not None:
            eq(n + ' at the end', L.read(t, o), v)
            b = enc_or(t, v)
            if b is not None:
                eq('encode(%s) at the end' % n, L.encode(o), b)
    i = len(w.vs) - 1
    eq('decode(message %d) at the end' % i, L.read(t, L.decode(st['msgs'][i], asn1Spec=w.spec)), st['norms'][i])
    eq('decode(message 0) at the end', L.read(t, L.decode(st['msgs'][0], asn1Spec=w.spec)), st['norms'][0])
    eq('encode(value 0) at the end', L.encode(L.make(t, w.vs[0], w.c)), st['msgs'][0])


def state_key(w):
    return (repr(w.lastv), repr(w.prevv), repr(w.keep), repr(w.spec))


DEPTH = {'quick': 3, 'thorough': 4}
PDEPTH = {'quick': 4, 'thorough': 5}


def BOUNDS(tier):
    return 'all sequences of length %d over 12..17 operations for %d types; all sequences of length %d over the operations of %d pairs of same-named types; all ordered pairs of the calls of all types together' % (
        DEPTH[tier], len(list(universe())), PDEPTH[tier], len(PAIRS))


def items(tier):
    out = []
    for i, (n, t, vs) in enumerate(universe()):
        st = static(t, vs)
        for j in range(len(ops_of(t, vs, st))):
            out.append(('%s.%d' % (n, j), ('one', i, j, DEPTH[tier])))
    out.append(('absent', ('absent',)))
    for i in range(len(PAIRS)):
        out.append(('pair.%d' % i, ('pair', i, PDEPTH[tier])))
    n = len(multi_ops(False))
    for same in (False, True):
        for a in range(0, n, 12):
            out.append(('multi.%s.%d' % (same, a), ('multi', same, a, a + 12, 2)))
    return out


SHAPES = [('m', ('', ('m',))), ('m', ('', ('m', 'o'))), ('o', ('m', ('mo',))), ('', ('om', ())), ('m', ('oo', ('om', 'm'))), ('d', ('mm', ())), ('mo', ('o', ('oo', 'dm'))), ('m', ('', ()))]


def multi():
    """(type, values): the types over which calls of different types follow each other; for the extensible ones every presence subset, allowed or not"""
    for n, t, vs in universe():
        inv = invalid(t)
        yield t, list(vs) + ([inv[0]] if inv else [])
    for ta, va, tb, vb in PAIRS:
        yield ta, va
        yield tb, vb
    for s in SHAPES:
        t = D.shape_type(s)
        fs = fields(t)
        yield t, [{f.name: D.vals(f.type)[0] for i, f in enumerate(fs) if r >> i & 1} for r in range(1 << len(fs))]


def multi_ops(same_name):
    """one call each, with what it has to give; objects that live as long as the process of exploration"""
    out = []
    for i, (t, vs) in enumerate(multi()):
        c = L.fresh_cls(t)
        if same_name:
            c.__name__ = 'Message'
        spec = c()
        good = []
        for v in vs:
            try:
                m = M.encode(t, v)
                good.append((v, m))
                want = ('ok', m)
            except M.Reject:
                want = ('raised',)
            except M.DontCare:
                continue
            out.append(('%d.encode(%s)' % (i, K.short(v)), lambda t=t, v=v, c=c: L.encode(L.make(t, v, c)), want))
        for v, m in D.spread(good, 5):
            out.append(('%d.decode(%s)' % (i, m.hex()), lambda t=t, m=m, spec=spec: L.read(t, L.decode(m, asn1Spec=spec)), ('ok', M.norm(t, v))))
        for v, m in D.spread(good, 2):
            o = L.make(t, v, c)
            out.append(('%d.to_dict(%s)' % (i, K.short(v)), lambda o=o: o.to_dict(), ('ok', M.to_dict(t, v))))
            out.append(('%d.encode-again(%s)' % (i, K.short(v)), lambda o=o: L.encode(o), ('ok', m)))
        st = static(t, [v for v, _ in good])
        for b in (st['trunc'], st['garb']):
            if b is not None:
                out.append(('%d.decode(%s)' % (i, b.hex()), lambda t=t, b=b, spec=spec: L.read(t, L.decode(b, asn1Spec=spec)), ('raised',)))
    return out


def outcome_of(f):
    try:
        return ('ok', f())
    except Exception:
        return ('raised',)


def run_multi(same, lo_, hi_, depth, ctx):
    ops = multi_ops(same)
    for i in range(lo_, min(hi_, len(ops))):
        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
            seq = (i,) + rest
            for d, j in enumerate(seq):
                name, f, want = ops[j]
                got = outcome_of(f)
                ctx.transitions += 1
                if got != want:
                    ctx.fail('multi|%r|%d' % ([ops[x][0] for x in seq], d), 'after %s: %s gave %s, expected %s' % (
                        ', '.join(ops[x][0] for x in seq[:d]) or 'earlier histories', name, K.short(got), K.short(want)), history=[ops[x][0] for x in seq[:d + 1]])
                    break
            ctx.traces += 1
            ctx.states.add(seq)
            if ctx.nfail >= 20:
                return
        ctx.flush_states()
    ctx.sample = {'operations': len(ops), 'last history': [ops[x][0] for x in seq]}


def play(ctx, worlds, sts, seq, label):
    i = -1
    try:
        for i, (wi, op) in enumerate(seq):
            ctx.transitions += 1
            step(worlds[wi], sts[wi], op)
            worlds[wi].unchanged(op[0])
            ctx.states.add(hash((tuple(state_key(w) for w in worlds), seq[:i + 1])))
        i = 'probe'
        for w, st in zip(worlds, sts):
            probe(w, st)
    except Exception as e:
        what = str(e) if isinstance(e, Diff) else 'raised %s: %s' % (type(e).__name__, str(e)[:200])
        ctx.fail('hist|%s|%r' % (label, seq), '%s: history %s, at step %s: %s' % (label, seq, i, what),
                 types=[repr(w.t) for w in worlds], values=[repr(w.vs) for w in worlds], history=repr(seq))
    ctx.traces += 1


def run(p, ctx):
    if p[0] == 'one':
        _, i, j, depth = p
        n, t, vs = list(universe())[i]
        st = static(t, vs)
        ops = ops_of(t, vs, st)
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = tuple((0, o) for o in (ops[j],) + rest)
            try:
                w = World(t, vs)
            except Exception as e:
                return ctx.fail('hist|%s|world' % n, '%s: cannot build: %s: %s' % (n, type(e).__name__, e), type=repr(t))
            play(ctx, [w], [st], seq, n)
            if ctx.cut():
                return
        ctx.sample = {'type': K.short(t), 'operations': [str(o) for o in ops], 'last history': [str(o) for o in seq]}
    elif p[0] == 'multi':
        run_multi(p[1], p[2], p[3], p[4], ctx)
    elif p[0] == 'absent':
        # reading the insides of absent OPTIONAL components, by kind of what is inside
        for name, inner in (('optional', Field('w', I3, True)), ('default', Field('w', I3, False, 2)), ('list', Field('w', SeqOf(I3), True)),
                            ('sequence', Field('w', Seq((Field('v', I3, True),), None), True))):
            t = Seq((Field('a', B), Field('n', Seq((inner,), None), True)), None)
            c = L.fresh_cls(t)
            o = L.make(t, {'a': True}, c)
            touch(t, o, True)
            ctx.traces += 1
            ctx.transitions += 2
            ctx.state('absent', name)
            got, want = L.encode(o), M.encode(t, {'a': True})
            if got != want:
                ctx.fail('read-absent-%s' % name, 'reading a component (%s) of an absent OPTIONAL SEQUENCE changes the encoding of the message '
                         'from %s to %s' % (name, want.hex(), got.hex()), type=repr(t), value="{'a': True}")
    else:
        _, i, depth = p
        ta, va, tb, vb = PAIRS[i]
        sts = [static(ta, va), static(tb, vb)]
        ops = [(0, ('E', 0)), (0, ('D', 0)), (1, ('E', 0)), (1, ('D', 0)), (1, ('E', len(vb) - 1)), (1, ('D', len(vb) - 1)), (0, ('T',)), (1, ('T',))]
        for seq in itertools.product(ops, repeat=depth):
            play(ctx, [World(ta, va), World(tb, vb)], sts, seq, 'pair %d' % i)
            if ctx.cut():
                return
        ctx.sample = {'types': [K.short(ta), K.short(tb)], 'last history': [str(o) for o in seq]}
