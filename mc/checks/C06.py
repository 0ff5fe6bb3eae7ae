"""Arbitrary input: decode() of any byte string raises or returns exactly the value X.691 assigns to it."""
import itertools
from .. import domains as D, codec as K, model as M, lib as L
from ..model import *        # noqa
PROPERTY = 'C06'
RULE = ('all byte strings of length 1 and 2 (and 3 over a byte alphabet) are decoded by the reference model and by decode() for each '
        'type; for every type of the bounded spaces of C01 and C02 every single-bit and single-octet change of messages (and trailing octets) likewise; model value (canonical message) => same value; model value of a non-canonical message => same value or an error; '
        'model says malformed or short => an error')

B, I3, I8, OV, BV, IU = D.B, D.I3, D.I8, D.OV, D.BV, D.IU
TYPES = [
    Bool(), Int(0, 0), Int(5, 5), Int(0, 1), Int(0, 2), Int(3, 7), Int(0, 6), Int(-3, 9), Int(0, 200), Int(0, 254), Int(0, 255), Int(1, 256),
    Int(0, 256), Int(0, 999), Int(-128, 127), Int(0, 65535), Int(10, 65000), Int(0, 65536), Int(0, 1 << 24), Int(0, (1 << 32) - 1),
    Int(0, None), Int(-5, None), Int(None, 5), Int(),
    Int(0, 6, True), Int(5, 5, True), Int(0, 255, True), Int(0, 999, True), Int(0, None, True), Int(None, 5, True), Int(0, 99999, True),
    Enum((('a', 0),), None), Enum((('a', 0), ('b', 1), ('c', 2)), None), Enum((('a', 5), ('b', 2), ('c', 9)), None),
    Enum((('a', 0), ('b', 1), ('c', 2)), ()), Enum((('a', 0), ('b', 1), ('c', 2)), (('x', 3), ('y', 4))), Enum((('a', 0),), (('x', 1),)),
    Bits(), Bits(0, 3), Bits(1, 5), Bits(4, 4), Bits(16, 16), Bits(17, 17), Bits(0, 9), Bits(0, 3, True), Bits(2, 2, True), Bits(3, None),
    Bits(0, 0), Bits(0, 0, True), Bits(0, 300), Bits(0, 70000),
    Octs(), Octs(0, 1), Octs(0, 2), Octs(1, 1), Octs(2, 2), Octs(3, 3), Octs(1, 5), Octs(0, 1, True), Octs(2, 2, True), Octs(1, None),
    Octs(0, 0), Octs(0, 300), Octs(1, 70000),
    SeqOf(B), SeqOf(B, 0, 3), SeqOf(B, 0, 4), SeqOf(B, 2, 2), SeqOf(I3, 1, 3), SeqOf(I8, 0, 2), SeqOf(B, 0, 2, True), SeqOf(OV, 0, 2), SeqOf(I3, 1, None),
    SeqOf(B, 0, 300), SeqOf(Seq((Field('a', B, True),), None), 0, 3), SeqOf(SeqOf(B, 0, 3), 0, 3),
    Choice((('a', B),), None), Choice((('a', B), ('b', I3), ('c', I8)), None), Choice((('a', B), ('b', I3)), ()),
    Choice((('a', B),), (('x', B), ('y', I8))), Choice((('a', B), ('b', I3), ('c', B)), (('x', OV),)), Choice((('a', SeqOf(B, 0, 3)), ('b', OV)), None),
    Seq((Field('a', B), Field('b', I3)), None), Seq((Field('a', B, True), Field('b', I3, True)), None),
    Seq((Field('a', I3, False, 5), Field('b', B)), None), Seq((Field('a', OV, True), Field('b', B)), None), Seq((Field('a', BV), Field('b', OV)), None),
    Seq((), None), Seq((), ()), Seq((Field('a', B),), ()), Seq((Field('a', B),), (Field('x', B),)), Seq((Field('a', B),), (Field('x', B, True), Field('y', I8, True))),
    Seq((), (Field('x', B, True), Field('y', OV, True))), Seq((Field('a', B, True),), (Group(Field('x', B), Field('y', I3, True)),)),
    Seq((Field('a', B),), (Field('w', B, True), Group(Field('x', B), Field('y', I3, True)),)),
    Seq((Field('a', Choice((('p', B), ('q', I3)), ())), Field('b', I3)), None),
    Seq((Field('a', Enum((('r', 0), ('s', 1), ('t', 2)), (('u', 3),))), Field('b', Bits(0, 3, True)), Field('c', B)), None),
    Seq((Field('a', Int(0, 9, True)), Field('b', Octs(0, 1, True)), Field('c', B)), ()),
]
ALPHA = (0x00, 0x01, 0x02, 0x03, 0x05, 0x08, 0x10, 0x20, 0x40, 0x41, 0x60, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x90, 0xa0, 0xc0, 0xe0, 0xff)
ASSUMPTIONS = ['the model (mc/model.py) is written from X.680 / X.691 alone and never imports the library',
               'lengths of 16384 and more (fragmentation) are outside']


def BOUNDS(tier):
    return '%d types x all 65792 byte strings of length 1 and 2 + all %d^3 strings of length 3%s' % (
        len(TYPES), len(ALPHA), ' + all 11^4 of length 4 + all 65536 suffixes after 0x80/0xc0' if tier == 'thorough' else '') + '; %d component types in 3 places x all 1-octet and %d longer strings; every one-bit / one-octet change of messages of the spaces of C01 and C02' % (len(D.MIX), 2 * len(ALPHA) ** 2 + 7 ** 3)


def items(tier):
    out = []
    for i, t in enumerate(TYPES):
        for h in range(4):
            out.append(('%d.%s.%d' % (i, K.short(t)[:60], h), ('any', i, h, tier)))
    for i in range(len(D.MIX)):
        out.append(('small.%d' % i, ('small', i)))
    n = 4 if tier == 'quick' else 12
    for l, p in D.con_payloads(tier, 'single' if tier == 'quick' else True):
        if p[0] in ('mix', 'pair'):
            out.append(('flip.' + l, ('flip', 'c', p, n)))
        elif p[0] == 'shapes' or p[0] == 'types' and (tier == 'thorough' or not l.startswith('nest3')):
            out.append(('flip.' + l, ('flip', 'c', p, 2 if tier == 'quick' else 8)))
        elif p[0] == 'big':
            out.append(('flip.' + l, ('flip', 'c', p, 2 if tier == 'quick' else 6)))
    for l, p, offs in D.prim_payloads(tier):
        if p[0] in ('int', 'enum', 'enumext', 'enumnum', 'str', 'intopen', 'intopenext', 'combo'):
            out.append(('flip.' + l, ('flip', 'p', p, n if p[0] != 'combo' or tier == 'thorough' else 2)))
    return out


def inputs(h, tier):
    if h == 0:
        for a in range(256):
            yield bytes([a])
    for a in range(h * 64, h * 64 + 64):
        for b in range(256):
            yield bytes([a, b])
    for k, (a, b, c) in enumerate(itertools.product(ALPHA, ALPHA, ALPHA)):
        if k % 4 == h:
            yield bytes([a, b, c])
    if tier == 'thorough':
        sub = ALPHA[::2]
        for k, tup in enumerate(itertools.product(sub, sub, sub, sub)):
            if k % 4 == h:
                yield bytes(tup)
        lead = (0x80, 0xc0, 0x81, 0xff)[h]
        for a in range(256):
            for b in range(256):
                yield bytes([lead, a, b])


def flips(data, limit=12):
    """every single bit of the message inverted (of a long one: of its first and last octets), and every octet replaced by its complement"""
    n = len(data)
    where = range(n) if n <= limit else list(range(limit - 4)) + list(range(n - 4, n))
    for o in where:
        for m in (1, 2, 4, 8, 16, 32, 64, 128, 255):
            yield data[:o] + bytes([data[o] ^ m]) + data[o + 1:]


def run(p, ctx):
    if p[0] == 'any':
        _, i, h, tier = p
        t = TYPES[i]
        c = L.cls_of(t)
        spec = c()
        for data in inputs(h, tier):
            one(t, spec, data, ctx)
            if ctx.cut():
                return
    elif p[0] == 'small':
        t = D.MIX[p[1]]
        for tt in (t, Seq((Field('p', B), Field('f', t), D.TAIL), None), Seq((Field('f', t, True), Field('g', t, True)), ())):
            spec = L.cls_of(tt)()
            for a in range(256):
                one(tt, spec, bytes([a]), ctx)
            few = t == SeqOf(Int(3, 3))              # its elements take no bits, so short messages hold 16383 of them
            for a, b in itertools.product(ALPHA[:8] if few else ALPHA, ALPHA):
                one(tt, spec, bytes([a, b]), ctx)
                one(tt, spec, bytes([a, b, 0x81, 0x02]), ctx)
            for tup in itertools.product(ALPHA[:8:3] if few else ALPHA[::3], repeat=3):
                one(tt, spec, bytes(tup), ctx)
            if ctx.cut():
                return
            ctx.flush_states()
    else:
        _, kind, pl, n = p
        for t, vs in (D.expand_prim(pl) if kind == 'p' else D.expand_con(pl)):
            ts = [(t, vs)] if kind == 'c' else [(t, vs), (D.at_offset(t, 3), [D.val_at_offset(v, 3) for v in vs])]
            for tt, vv in ts:
                spec = L.cls_of(tt)()
                for v in D.spread(vv, n):
                    try:
                        data = M.encode(tt, v)
                    except (M.Reject, M.DontCare):
                        continue
                    if len(data) > 400:
                        continue
                    for d in flips(data):
                        one(tt, spec, d, ctx)
                    for tail in (b'\x00', b'\xff', b'\x80\x01'):
                        one(tt, spec, data + tail, ctx)
                L._cache.pop(tt, None)
                ctx.flush_states()
                if ctx.cut():
                    return


def one(t, spec, data, ctx):
    ctx.transitions += 1
    ctx.states.add(hash((t, data)))
    try:
        want, used, canon = M.decode(t, data)
        kind = 'value' if canon else 'loose'
    except M.Short:
        kind, want = 'error', 'too short'
    except M.Malformed as e:
        kind, want = 'error', str(e)
    except M.DontCare:
        ctx.count('undefined_by_model')
        return
    ctx.traces += 1
    try:
        o = L.decode(data, asn1Spec=spec)
    except Exception as e:
        ctx.outcome(type(e).__name__)
        if kind == 'value':
            ctx.fail('any|%r|%s' % (t, data.hex()), 'decode(%s) for %s raised %s: %s, X.691 says %s' % (
                K.short(data.hex()), K.short(t), type(e).__name__, str(e)[:200], K.short(want)), type=repr(t), data=data.hex())
        return
    try:
        got = L.read(t, o)
    except Exception as e:
        ctx.fail('any|%r|%s' % (t, data.hex()), 'decode(%s) for %s gave an unreadable value (%s), X.691 says %s' % (
            K.short(data.hex()), K.short(t), e, K.short(want)), type=repr(t), data=data.hex())
        return
    if kind == 'error':
        ctx.fail('any|%r|%s' % (t, data.hex()), 'decode(%s) for %s gave %s, but this is no valid message (%s)' % (
            K.short(data.hex()), K.short(t), K.short(got), want), type=repr(t), data=data.hex())
        return
    ctx.outcome(repr(got))
    if got != want:
        ctx.fail('any|%r|%s' % (t, data.hex()), 'decode(%s) for %s gave %s, X.691 says %s' % (
            K.short(data.hex()), K.short(t), K.short(got), K.short(want)), type=repr(t), data=data.hex())
    elif ctx.sample is None and kind == 'value' and data[0] not in (0, 255):
        ctx.sample = {'type': K.short(t), 'bytes': K.short(data.hex()), 'value': K.short(got)}
