"""Rejection: a value outside its type never becomes a message."""
import itertools
from .. import domains as D, codec as K, model as M, lib as L
from ..model import *        # noqa
PROPERTY = 'C08'
RULE = ('every candidate value just outside a constraint, every subset of missing mandatory components, every unselected CHOICE and '
        'unknown name, alone and nested at depth 1..2: building or encoding it has to raise; next to it every value just inside '
        'has to be accepted (so that refusing everything is no way out)')

B, I3, I8, OV, IU = D.B, D.I3, D.I8, D.OV, D.IU
ASSUMPTIONS = ['the model (mc/model.py) is written from X.680 / X.691 alone and never imports the library',
               'lengths of 16384 and more (fragmentation) are outside']


def BOUNDS(tier):
    return 'all bounds of domains.INT_BOUNDS/BIT_BOUNDS/OCT_BOUNDS, SIZE bounds 0..8 of SEQUENCE OF, all SEQUENCE shapes of tier %s' % tier


def wraps(t):
    yield t, (lambda v: v)
    yield Seq((Field('f', t), Field('g', B)), None), (lambda v: {'f': v, 'g': True})
    yield Seq((Field('g', B), Field('f', t, True)), ()), (lambda v: {'f': v, 'g': True})
    yield Seq((Field('g', B),), (Field('f', t, True),)), (lambda v: {'f': v, 'g': True})
    yield Seq((Field('g', B),), (Group(Field('h', I3), Field('f', t, True)),)), (lambda v: {'f': v, 'g': True, 'h': 1})
    yield SeqOf(t, 0, 3), (lambda v: [v])
    yield Choice((('f', t), ('g', B)), None), (lambda v: ('f', v))
    yield Choice((('g', B),), (('f', t),)), (lambda v: ('f', v))


def wraps2(t):
    for a, fa in wraps(t):
        yield a, fa
    for a, fa in list(wraps(t))[1:]:
        for b, fb in list(wraps(a))[1:]:
            yield b, (lambda v, fa=fa, fb=fb: fb(fa(v)))


def wraps3(t):
    for a, fa in list(wraps(t))[1:]:
        for b, fb in list(wraps(a))[1:]:
            for c, fc in list(wraps(b))[1:]:
                yield c, (lambda v, fa=fa, fb=fb, fc=fc: fc(fb(fa(v))))


def near(t):
    """values of t and next to t"""
    k = t[0]
    if k == 'Bool':
        return [True, False]
    if k == 'Int':
        return around(t.lb, t.ub) or [0]
    if k in ('Bits', 'Octs'):
        pat = D.patterns if k == 'Bits' else D.opatterns
        return [pat(n)[-1] for n in sorted({n for b in (t.lb, t.ub) if b is not None for n in (b - 1, b, b + 1, b + 8)} | {0, 1, 2}) if 0 <= n < 2000]
    if k == 'Enum':
        return [a for a, _ in t.root][:2] + [a for a, _ in (t.ext or ())] + ['nope']
    if k == 'SeqOf':
        ev = near(t.elem)
        return [[ev[i % len(ev)] for i in range(n)] for n in (0, 1, 2, 3, 4)] + [[x] for x in ev]
    if k == 'Seq':
        fs = fields(t)
        r = [{f.name: D.vals(f.type)[0] for i, f in enumerate(fs) if q >> i & 1} for q in range(1, 1 << len(fs))]
        r = [{}] if not fs else r
        return r + [dict([(g.name, D.vals(g.type)[0]) for g in fs] + [(f.name, x)]) for f in fs for x in near(f.type)]
    return [(n, x) for n, ty in alternatives(t) for x in near(ty)]


DEEP3 = [
    (Int(0, 6), [-1, 0, 6, 7, 8, 256]), (Int(10, 300), [9, 10, 300, 301, 0]), (Int(5, 5), [4, 5, 6]), (Int(3, None), [2, 3]), (Octs(1, 2), [b'', b'1', b'12', b'123']),
    (Octs(2, 2), [b'1', b'12', b'123']), (Bits(3, 5), ['01', '010', '01010', '010101']), (Enum((('a', 0), ('b', 1)), None), ['a', 'b', 'c']),
    (Enum((('a', 0), ('b', 1)), (('c', 2),)), ['a', 'c', 'd']), (SeqOf(B, 1, 2), [[], [True], [True] * 2, [True] * 3]), (SeqOf(I3, 2, 2), [[1], [1, 2], [1, 7], [1, 2, 3]]),
    (Seq((Field('m', I3), Field('n', I8)), None), [{'m': 1}, {'n': 1}, {'m': 1, 'n': 2}, {'m': 7, 'n': 2}]),
    (Seq((Field('m', I3),), (Field('n', I8), Field('o', B))), [{'m': 1, 'n': 2}, {'m': 1, 'o': True}, {'n': 1, 'o': False}, {'m': 1, 'n': 2, 'o': True}]),
    (Choice((('k', I3), ('l', Octs(1, 1))), None), [('k', 1), ('k', 7), ('l', b''), ('l', b'1')]),
]


def items(tier):
    out = []
    n3 = len(list(wraps3(B)))
    for i in range(len(DEEP3)):
        out += [('deep3.%d.%d' % (i, a), ('deep3', i, a, tier)) for a in range(0, n3, 100)]
    for i in range(len(D.MIX)):
        out.append(('mix.%d' % i, ('mix', i, tier)))
    for i, c in enumerate(D.chunks(D.INT_BOUNDS, 8)):
        out.append(('int.%d' % i, ('int', tuple(c), tier)))
    out.append(('intopen', ('intopen', tier)))
    for i in range(0, len(D.COMBOS), 60):
        out.append(('combo.%d' % i, ('combo', i, tier)))
    for i, c in enumerate(D.chunks(D.BIT_BOUNDS + D.HALF + D.LOWOPEN, 10)):
        out.append(('bits.%d' % i, ('str', 'Bits', tuple(c), tier)))
    for i, c in enumerate(D.chunks(D.OCT_BOUNDS + D.HALF + D.LOWOPEN, 10)):
        out.append(('octs.%d' % i, ('str', 'Octs', tuple(c), tier)))
    out.append(('enum', ('enum', tier)))
    out.append(('seqof', ('seqof', tier)))
    out.append(('long', ('long', tier)))
    for i, c in enumerate(D.chunks(D.seq_shapes(tier), 80)):
        out.append(('shape.%d' % i, ('shape', tuple(c), tier)))
    out.append(('nest', ('nest', tier)))
    out.append(('choice', ('choice', tier)))
    return out


def try_(t, v, c, ctx, expect=None, what=None):
    """model verdict (or the given one) against the library"""
    if expect is None:
        try:
            M.encode(t, v)
            expect = 'ok'
        except M.Reject:
            expect = 'reject'
        except M.DontCare:
            return
    ctx.transitions += 1
    ctx.traces += 1
    ctx.states.add(hash((t, repr(v))))
    ways = [lambda: L.make(t, v, c)] if what is None else [lambda: what(c)]
    if what is None and t[0] in ('Seq', 'SeqOf', 'Choice'):
        ways.append(lambda: L.fill(t, v, c))                # with plain Python values, in place
    for way in ways:
        verdict(t, v, way, expect, ctx)


def verdict(t, v, way, expect, ctx):
    try:
        b = L.encode(way())
    except Exception as e:
        ctx.outcome(type(e).__name__)
        if expect == 'ok':
            ctx.fail('rej|%r|%r' % (t, v), 'valid value %s of %s was refused: %s: %s' % (
                K.short(v), K.short(t), type(e).__name__, str(e)[:200]), type=repr(t), value=repr(v))
        return
    if expect == 'reject':
        ctx.fail('rej|%r|%r' % (t, v), 'value %s is not a value of %s but was encoded as %s' % (
            K.short(v), K.short(t), K.short(b.hex())), type=repr(t), value=repr(v))
    elif ctx.sample is None:
        ctx.sample = {'type': K.short(t), 'value': K.short(v), 'accepted_as': K.short(b.hex())}


def all_wraps(t, vs, ctx, deep):
    for w, f in (wraps2(t) if deep else wraps(t)):
        c = L.cls_of(w)
        for v in vs:
            try_(w, f(v), c, ctx)
            if ctx.cut():
                return
        ctx.flush_states()
    L._cache.clear()


def around(lb, ub):
    vs = set()
    for b in (lb, ub):
        if b is not None:
            vs |= {b - 2, b - 1, b, b + 1, b + 2, b - 256, b + 256, b - 65536, b + 65536, -b, b - (1 << 64), b + (1 << 64)}
    return sorted(vs)


def run(p, ctx):
    k, tier = p[0], p[-1]
    deep = tier == 'thorough'
    if k == 'deep3':
        t, vs = DEEP3[p[1]]
        for w, f in list(wraps3(t))[p[2]:p[2] + 100]:
            c = L.cls_of(w)
            for v in vs:
                try_(w, f(v), c, ctx)
            L._cache.clear()
            ctx.flush_states()
            if ctx.cut():
                return
    elif k == 'mix':
        t = D.MIX[p[1]]
        all_wraps(t, near(t), ctx, True)
        for lb, ub, ext in ((None, None, False), (0, 3, False), (2, 2, False), (1, 2, True), (1, None, False)):
            all_wraps(SeqOf(t, lb, ub, ext), [[D.vals(t)[0]] * n for n in range(5)] + [[D.vals(t)[-1]] + [x] for x in near(t)], ctx, deep)
    elif k == 'int':
        for i, (lb, ub) in enumerate(p[1]):
            all_wraps(Int(lb, ub), around(lb, ub), ctx, deep or i % 4 == 0)
            if i % 4 == 0:
                all_wraps(Int(lb, ub, True), around(lb, ub), ctx, False)
    elif k == 'combo':
        for cls, e in D.COMBOS[p[1]:p[1] + 60]:
            for ext in (False, True):
                all_wraps(combined(cls, e, ext), D.combo_vals(cls, e), ctx, deep)
    elif k == 'intopen':
        for b in (0, 1, -1, 5, 127, 128, -128, 65536, 1 << 32):
            all_wraps(Int(b, None), around(b, None), ctx, deep)
            all_wraps(Int(None, b), around(None, b), ctx, deep)
    elif k == 'str':
        cls, pat = (Bits, D.patterns) if p[1] == 'Bits' else (Octs, D.opatterns)
        for i, (lb, ub) in enumerate(p[2]):
            ns = {n for b in (lb, ub) if b is not None for n in (b - 2, b - 1, b, b + 1, b + 2, b + 8, b + 128)} | {0, 1}
            ns = sorted(n for n in ns if 0 <= n <= 66000 and (n < 2000 or n in (lb, ub)))
            vs = [pat(n)[-1] for n in ns]
            all_wraps(cls(lb, ub), vs, ctx, deep or i % 4 == 0)
            all_wraps(cls(lb, ub, True), vs, ctx, False)
    elif k == 'enum':
        for n in (1, 2, 3, 8):
            for ext in (None, (), (('x', n), ('y', n + 1))):
                t = Enum(D.enum_root(n), ext)
                all_wraps(t, [a for a, _ in t.root] + [a for a, _ in (ext or ())] + ['zz', 'e%d' % n, ''], ctx, deep)
                # numbers that name nothing
                for w, f in list(wraps(t))[:1]:
                    for num in (-1, n + 7, 1000):
                        try_(w, num, None, ctx, 'reject', what=lambda c, w=w, num=num: L.cls_of(w)(num))
    elif k == 'seqof':
        for e, ev in ((B, True), (I8, 7)):
            for lb, ub in D.SIZE_BOUNDS_SMALL + [(0, None), (1, None), (2, None), (3, None), (None, 0), (None, 2), (None, 3), (None, None), (0, 255), (255, 256), (127, 128)]:
                ns = sorted({n for b in (lb, ub) if b is not None for n in (b - 2, b - 1, b, b + 1, b + 2, b + 10) if n >= 0} | {0, 1, 2})
                all_wraps(SeqOf(e, lb, ub), [[ev] * n for n in ns], ctx, deep or (ub or 0) < 3)
                all_wraps(SeqOf(e, lb, ub, True), [[ev] * n for n in ns], ctx, False)
        # wrong element
        for bad in (-1, 256, 1000):
            all_wraps(SeqOf(I8, 0, 3), [[1, bad], [bad], [bad, 1], [1, 2, bad]], ctx, deep)
    elif k == 'long':
        # lengths that need fragmentation are refused, never garbled
        for t, mk in ((Octs(), lambda n: b'\x5a' * n), (Octs(0, 65536), lambda n: b'\x5a' * n), (Octs(3, None), lambda n: b'\x5a' * n),
                      (Octs(0, 5, True), lambda n: b'\x5a' * n), (Bits(), lambda n: '01' * (n // 2) + '1' * (n % 2)),
                      (Bits(0, 5, True), lambda n: '1' * n), (SeqOf(B), lambda n: [True] * n), (SeqOf(B, 0, 70000), lambda n: [True] * n),
                      (SeqOf(B, 0, 5, True), lambda n: [True] * n)):
            for n in (16381, 16382, 16383, 16384, 16385, 20000, 32768, 49152, 65535, 65536):
                if t[0] == 'SeqOf' and n > 20000 and not deep:
                    continue
                v = mk(n)
                try_(t, v, L.cls_of(t), ctx)
                if n <= 20000:
                    for w, f in ((Seq((Field('a', B),), (Field('f', t, True),)), lambda v: {'a': True, 'f': v}), (Choice((('a', B),), (('f', t),)), lambda v: ('f', v))):
                        if t[0] != 'SeqOf' or deep:
                            try_(w, f(v), L.cls_of(w), ctx)
        for n in (64, 65, 66, 100):
            fs = tuple(Field('x%d' % i, I3, True) for i in range(n))
            t = Seq((Field('r', B),), fs)
            for v in ({'r': True, 'x0': 1}, {'r': True, 'x%d' % (n - 1): 1}, {'r': True}):
                try_(t, v, L.cls_of(t), ctx)
    elif k == 'shape':
        for s in p[1]:
            t = D.shape_type(s)
            c = L.cls_of(t)
            fs = fields(t)
            for r in range(1 << len(fs)):
                v = {f.name: D.vals(f.type)[0] for i, f in enumerate(fs) if r >> i & 1}
                try_(t, v, c, ctx)
                if ctx.cut():
                    return
            # one component out of its own constraint
            for i, f in enumerate(fs):
                bad = {'Int': 300, 'Octs': b'12345', 'Bits': '010101', 'Enum': 'nope'}.get(f.type[0])
                if bad is None or f.type == IU:
                    continue
                v = {g.name: D.vals(g.type)[0] for g in fs}
                v[f.name] = bad
                try_(t, v, c, ctx)
            ctx.flush_states()
            L._cache.clear()
    elif k == 'nest':
        inner = Seq((Field('m', I3), Field('n', I8), Field('o', OV, True)), None)
        vs = [dict(x) for n in range(4) for x in itertools.combinations((('m', 3), ('n', 4), ('o', b'\x01')), n)]
        vs = [v for v in vs if v]                      # the value-less SEQUENCE counts as absent, see DESIGN.md
        all_wraps(inner, vs, ctx, True)
        innerx = Seq((Field('m', I3), Field('o', B, True)), (Field('n', I8), Field('q', B), Field('r', B, True)))
        names = (('m', 3), ('o', True), ('n', 4), ('q', False), ('r', True))
        vs = [dict(x) for n in range(1, 6) for x in itertools.combinations(names, n)]
        all_wraps(innerx, vs, ctx, True)
        innerg = Seq((Field('m', I3),), (Group(Field('n', I8), Field('q', B)), Group(Field('r', B), Field('s', OV, True))))
        names = (('m', 3), ('n', 4), ('q', False), ('r', True), ('s', b'\x02'))
        vs = [dict(x) for n in range(1, 6) for x in itertools.combinations(names, n)]
        all_wraps(innerg, vs, ctx, True)
    elif k == 'choice':
        for ext in (None, (), (('x', I8),), (Group(('x', I8), ('y', B)),)):
            for n in (1, 2, 3):
                t = Choice(tuple(('c%d' % i, I3) for i in range(n)), ext)
                c = L.cls_of(t)
                try_(t, 'unselected', c, ctx, 'reject', what=lambda c: c())
                try_(t, 'unknown alternative', c, ctx, 'reject', what=lambda c: _set(c(), 'nope', L.cls_of(I3)(1)))
                for w in (Seq((Field('f', t), Field('g', B)), None), Seq((Field('g', B),), (Group(Field('f', t), Field('h', B)),))):
                    cw = L.cls_of(w)
                    try_(w, 'unselected choice inside', cw, ctx, 'reject',
                         what=lambda cw, w=w: _set(_set(_set(cw(), 'g', L.cls_of(B)(True)), 'f', L.cls_of(t)()),
                                                   *(('h', L.cls_of(B)(True)) if 'h' in [f.name for f in fields(w)] else ('g', L.cls_of(B)(False)))))
                tl = SeqOf(t, 0, 3)
                try_(tl, 'unselected element', L.cls_of(tl), ctx, 'reject', what=lambda c: _ext(c(), [L.cls_of(t)()]))
        # primitives without a value
        for t in (B, I3, I8, IU, OV, D.BV, LEAFENUM):
            try_(t, 'no value', L.cls_of(t), ctx, 'reject', what=lambda c: c())
            w = Seq((Field('f', t), Field('g', B)), None)
            try_(w, 'no value inside', L.cls_of(w), ctx, 'reject', what=lambda c: _set(c(), 'g', L.cls_of(B)(True)))
            tl = SeqOf(t, 0, 3)
            try_(tl, 'no value element', L.cls_of(tl), ctx, 'reject', what=lambda c, t=t: _ext(c(), [L.cls_of(t)()]))
            # a value of another type
            for u in (B, I3, OV, D.BV):
                if u[0] != t[0]:
                    try_(w, 'component of type %s instead of %s' % (u, t), L.cls_of(w), ctx, 'reject',
                         what=lambda c, u=u: _set(_set(c(), 'g', L.cls_of(B)(True)), 'f', L.make(u, D.vals(u)[0])))


LEAFENUM = D.LEAVES['EN'][0]


def _set(o, n, v):
    o[n] = v
    return o


def _ext(o, l):
    o.extend(l)
    return o
