"""Threads: concurrent calls return what they return alone."""
import itertools
from .. import domains as D, codec as K, model as M, lib as L, sched as S
from ..model import *        # noqa
PROPERTY = 'C10'
RULE = ('two threads, each doing one call (encode of its own message, encode of a message both hold, decode with a spec both hold, decode '
        'of a truncated message, to_dict of a shared message); every schedule within the preemption bound is run on the real code under a '
        'controlled scheduler; both results must be the ones the model gives for the call alone, and the shared objects must encode the same afterwards')
ASSUMPTIONS = ['switch points are the lines (and, for the byte-code pieces, the byte codes) of asn1PERser; CPython with the GIL',
               'the call of each thread is deterministic apart from the schedule']
ITEM_TIMEOUT = 600

B, I3, I8, OV, IU = D.B, D.I3, D.I8, D.OV, D.IU


def universe():
    inner = Seq((Field('q', I3, True), Field('w', OV, False, b'\x01')), ())
    yield 'prims', Seq((Field('a', B), Field('b', Int(0, 300), True), Field('c', OV), Field('d', Bits(0, 5), True), Field('e', D.LEAVES['EN'][0]))), \
        [{'a': True, 'b': 7, 'c': b'\x01\x02', 'd': '101', 'e': 'g'}, {'a': False, 'c': b'', 'e': 'x'}]
    yield 'ext', Seq((Field('a', I3, False, 4),), (Field('b', I8), Group(Field('c', OV, True), Field('d', B)))), \
        [{'a': 2, 'b': 9, 'd': True}, {'b': 1}]
    yield 'list', SeqOf(Seq((Field('a', I8), Field('n', inner, True)), None), 0, 3), [[{'a': 1, 'n': {'q': 2}}], [{'a': 5}, {'a': 6}]]
    yield 'choice', Choice((('a', I8), ('s', inner)), (('x', OV),)), [('s', {'q': 2}), ('x', b'\x05')]


def allowed(t, v):
    try:
        M.encode(t, v)
        return True
    except (M.Reject, M.DontCare):
        return False


def wide():
    """every kind of simple and constructed component, in a root and in an extension: each code path of the codec is interrupted by itself"""
    for i, t in enumerate(D.MIX):
        vs = D.mix_vals(t)
        a, b = vs[0], vs[-1]
        yield 'mix%d' % i, Seq((Field('f', t),), (Field('h', t),)), [{'f': a, 'h': b}, {'f': b}]
    for i, sh in enumerate(D.seq_shapes('quick')[::400]):
        t = D.shape_type(sh)
        vs = [v for v in D.shape_values(t) if allowed(t, v)]
        yield 'shape%d' % i, t, [vs[-1], vs[len(vs) // 2]]
    for lb, ub, ext in ((None, None, False), (0, 3, False), (2, 2, False), (0, 1, True), (1, 2, True), (1, None, False), (0, 65536, False)):
        e = Choice((('a', I8), ('b', SeqOf(OV, 0, 2))), (('c', IU), Group(('d', B))))
        l = [[('a', 1), ('d', True)], [('b', [b'\x01']), ('c', -5)]]
        yield 'list.%s.%s.%d' % (lb, ub, ext), Seq((Field('l', SeqOf(e, lb, ub, ext)), Field('z', I3)), None), [{'l': l[0], 'z': 1}, {'l': l[1], 'z': 2}]
    big = Enum(D.enum_root(70), tuple(('x%d' % i, 100 + i) for i in range(70)))
    yield 'bigenum', Seq((Field('f', big), Field('g', big)), None), [{'f': 'e64', 'g': 'x69'}, {'f': 'x64', 'g': 'x0'}]
    bigc = Choice((('a', B),), tuple(('x%d' % i, I8) for i in range(70)))
    yield 'bigchoice', Seq((Field('f', bigc), Field('g', bigc)), None), [{'f': ('x69', 1), 'g': ('a', True)}, {'f': ('x64', 2), 'g': ('x1', 3)}]
    grc = Choice((('a', B),), (Group(('c', I8), ('d', OV)), Group(('e', B))))
    yield 'groupchoice', Seq((Field('f', grc), Field('g', grc)), None), [{'f': ('c', 1), 'g': ('e', True)}, {'f': ('d', b'12'), 'g': ('c', 3)}]
    inner = Seq((Field('q', I3, True),), (Field('w', I8, True), Group(Field('y', I8, False, 7), Field('x', B, True))))
    yield 'innerext', Seq((Field('f', inner, True), Field('g', IU)), (Field('h', inner, True), Group(Field('i', inner, True), Field('j', inner, True)))), \
        [{'f': {'q': 1, 'w': 2}, 'g': 0, 'h': {'w': 3}, 'j': {'x': True}}, {'g': 0, 'i': {'q': 6, 'y': 3, 'x': False}}]
    old = Seq((Field('a', I3),), (Field('b', I8, True),))
    new = Seq((Field('a', I3),), (Field('b', I8, True), Field('c', OV, True), Group(Field('d', B), Field('e', IU, True)), Group(Field('f', OV))))
    yield 'newer', Seq((Field('o', old), Field('z', I8)), None), [{'o': {'a': 1, 'b': 5}, 'z': 7}, {'o': {'a': 2}, 'z': 8}], \
        [M.encode(Seq((Field('o', new), Field('z', I8)), None), v) for v in (
            {'o': {'a': 1, 'b': 5, 'c': b'123', 'd': True, 'f': b'abc'}, 'z': 7}, {'o': {'a': 2, 'c': b'', 'd': False, 'e': -3}, 'z': 8})]


WIDE = [('enc0', 'enc1'), ('dec0', 'dec1'), ('dec1', 'enc0'), ('dictS', 'encS')]


def calls(t, vs, other=None):
    """name -> (factory of (callable), expected outcome)"""
    c = L.fresh_cls(t)
    msgs = [M.encode(t, v) for v in vs]
    received = other or msgs            # other: messages of a newer version with the same values for this one
    shared = L.make(t, vs[0], c)
    spec = c()
    mine = [L.make(t, v, c) for v in vs]
    tr = None
    for m in msgs:
        try:
            M.decode(t, m[:-1])
        except M.Short:
            tr = m[:-1]
        except (M.Malformed, M.DontCare):
            pass
    out = {}
    for i in (0, 1):
        out['enc%d' % i] = (lambda i=i: L.encode(mine[i]), ('ok', msgs[i]))
        out['dec%d' % i] = (lambda i=i: L.decode(received[i], asn1Spec=spec), ('ok', M.norm(t, vs[i])))
    out['encS'] = (lambda: L.encode(shared), ('ok', msgs[0]))
    out['dictS'] = (lambda: shared.to_dict(), ('ok', M.to_dict(t, vs[0])))
    if tr is not None:
        out['decT'] = (lambda: L.decode(tr, asn1Spec=spec), ('raised',))
    after = lambda: (L.encode(shared), L.read(t, L.decode(msgs[0], asn1Spec=spec)))
    return out, after, (msgs[0], M.norm(t, vs[0]))


def canon(t, name, out):
    if out[0] == 'raised':
        return ('raised',) if name == 'decT' else out
    if name.startswith('dec'):
        try:
            return ('ok', L.read(t, out[1]))
        except Exception as e:
            return ('unreadable', str(e))
    return out


def BOUNDS(tier):
    return ('%d types (every kind of component) x %d pairs of calls: all schedules with 1 preemption; every ordered pair of 7 calls on 4 types: all schedules with 1 preemption at line granularity (asn1PERser and pyasn1 lines for '
            'the pairs on shared objects), at byte-code granularity for the pairs of %s; all schedules with 2 preemptions at line granularity, '
            'both switch points on a grid of step %s' % ((len(list(wide())), len(WIDE)) + (('encode/encode, decode/decode, decode/encode and shared encode (three types)', 7) if tier == 'quick' else ('all calls', 1))))


def items(tier):
    out = []
    for i, (n, t, vs) in enumerate(universe()):
        names = sorted(calls(t, vs)[0])
        for a, b in itertools.product(names, repeat=2):
            out.append(('%s.line.%s.%s' % (n, a, b), ('p1', i, a, b, False, False)))
            shared = {'encS', 'dictS', 'dec0', 'dec1', 'decT'}
            if a in shared and b in shared and (tier == 'thorough' or a in ('encS', 'dec0', 'dictS')):
                out.append(('%s.deep.%s.%s' % (n, a, b), ('p1', i, a, b, False, True)))
            if tier == 'thorough' or (n != 'ext' and (a, b) in (('enc0', 'enc1'), ('dec0', 'dec1'), ('encS', 'encS'), ('dec0', 'enc1'))):
                out.append(('%s.op.%s.%s' % (n, a, b), ('p1', i, a, b, True, False)))
            if tier == 'thorough' or (a, b) in (('dec0', 'dec1'), ('enc0', 'enc1'), ('dec0', 'enc1')):
                step = 7 if tier == 'quick' else 1
                for r in range(8):
                    out.append(('%s.two.%s.%s.%d' % (n, a, b, r), ('p2', i, a, b, step, r)))
    for i, (n, *_) in enumerate(wide()):
        out.append(('wide.%s' % n, ('wide', i, tier == 'thorough')))
    return out


def check(ctx, t, fa, fb, a, b, ea, eb, segs, opc, deep, after, want_after, label, look=True):
    r = S.Run([fa, fb], segs, opc, deep)
    outs, ns = r.run()
    ctx.traces += 1
    ctx.transitions += sum(ns)
    ctx.states.add(hash((label, tuple(segs))))
    got = (canon(t, a, outs[0]), canon(t, b, outs[1]))
    try:
        aft = after() if look else want_after
    except Exception as e:
        aft = '%s: %s' % (type(e).__name__, e)
    if got != (ea, eb) or aft != want_after:
        ctx.fail('sched|%s|%r' % (label, segs), '%s: schedule %s: results %s, alone %s; afterwards %s, expected %s' % (
            label, segs, K.short(got), K.short((ea, eb)), K.short(aft), K.short(want_after)), type=repr(t), calls=[a, b], schedule=repr(segs),
            opcodes=opc, deep=deep)
    return r


def run_wide(i, opc, ctx):
    n, t, vs, *other = list(wide())[i]
    for a, b in WIDE:
        cs, after, want_after = calls(t, vs, *other)
        if a not in cs or b not in cs:
            continue
        (fa, ea), (fb, eb) = cs[a], cs[b]
        na, oa = S.length(fa, opc)
        if canon(t, a, oa) != ea:
            return ctx.fail('alone|%s|%s' % (n, a), '%s: %s alone gives %s, expected %s' % (n, a, K.short(oa), K.short(ea)), type=repr(t), calls=[a])
        for k in range(1, na):
            check(ctx, t, fa, fb, a, b, ea, eb, [(0, k), (1, None), (0, None)], opc, False, after, want_after, '%s.%s.%s' % (n, a, b), k % 16 == 0 or k == na - 1)
            if ctx.cut():
                return
        ctx.sample = {'type': K.short(t), 'calls': [a, b], 'switch points': na}


def run(p, ctx):
    if p[0] == 'wide':
        return run_wide(p[1], p[2], ctx)
    n, t, vs = list(universe())[p[1]]
    cs, after, want_after = calls(t, vs)
    a, b = p[2], p[3]
    (fa, ea), (fb, eb) = cs[a], cs[b]
    if p[0] == 'p1':
        opc, deep = p[4], p[5]
        na, oa = S.length(fa, opc, deep)
        if canon(t, a, oa) != ea:
            return ctx.fail('alone|%s|%s' % (n, a), '%s: %s alone gives %s, expected %s' % (n, a, K.short(oa), K.short(ea)), type=repr(t), calls=[a])
        for k in range(1, na):
            if not opc and not deep:            # first use of a class is a state of its own: fresh classes and objects
                cs, after, want_after = calls(t, vs)
                fa, fb = cs[a][0], cs[b][0]
            check(ctx, t, fa, fb, a, b, ea, eb, [(0, k), (1, None), (0, None)], opc, deep, after, want_after, '%s.%s.%s' % (n, a, b))
            if ctx.cut():
                return
        ctx.sample = {'type': K.short(t), 'calls': [a, b], 'switch points': na, 'granularity': 'byte code' if opc else 'line'}
    else:
        step, r = p[4], p[5]
        na, _ = S.length(fa)
        nb, _ = S.length(fb)
        for k in range(1 + r * step, na, step * 8):
            for j in range(1, nb, step):
                check(ctx, t, fa, fb, a, b, ea, eb, [(0, k), (1, j), (0, None), (1, None)], False, False, after, want_after, '%s.%s.%s' % (n, a, b))
                if ctx.cut():
                    return
        ctx.sample = {'type': K.short(t), 'calls': [a, b], 'switch points': [na, nb], 'preemptions': 2}
