"""End to end: a schema text and a value give exactly the bytes of the standard, and the bytes give the value back."""
from .. import domains as D, codec as K, model as M, lib as L, schema as S, schemas as F
from ..schema import *       # noqa
from ..model import *        # noqa
from . import C13
PROPERTY = 'C17'
RULE = ('every schema of the families is parsed, the generated module is loaded, and for every type assignment of it every value of the bounded value set is built with '
        'the generated classes (component by component with the generated classes; and with plain Python values set in place), encoded and compared with the bytes of the model for the '
        'schema term; the bytes of the model are decoded with the generated class and have to give the value')
ASSUMPTIONS = C13.ASSUMPTIONS
NV = {'quick': 12, 'thorough': 60}


def BOUNDS(tier):
    return 'schemas of C13 (one spelling; thorough: three) and C14 graphs, at most %d values per type' % NV[tier]


def items(tier):
    out = []
    ts = F.leaf_types() + F.seqof_types() + F.con_types()
    for i, c in enumerate(D.chunks(range(len(ts)), 6)):
        out.append(('place.%d' % i, ('place', tuple(c), tier)))
    out += [('values', ('values', tier)), ('root2', ('root2', tier)), ('choice', ('choice', tier)), ('enums', ('enums', tier)), ('graphs', ('graphs', tier)), ('readme', ('readme', tier)), ('mixedseq', ('mixedseq', tier))] + [('words.%d' % i, ('words', tuple(c), tier)) for i, c in enumerate(D.chunks(F.WORDS, 8))]
    out += [('deep.%d.%s' % (n, '-'.join(st)), ('deep', n, st, tier)) for n, st in [(3, tuple(F.STEPS)), (4, tuple(F.STEPS)), (7, ('seq', 'cho'))]]
    for i, c in enumerate(D.chunks(F.shapes('quick'), 60)):
        out.append(('shape.%d' % i, ('shape', tuple(c), tier)))
    l1, l2, l3 = D.NESTED('quick')
    for d, l in ((1, l1), (2, l2)) + (((3, l3),) if tier == 'thorough' else ()):
        for i, c in enumerate(D.chunks(l, 60)):
            out.append(('nest%d.%d' % (d, i), ('nest', tuple(c), tier)))
    return out


def values(t, n):
    if t[0] == 'Seq':
        fs = fields(t)
        vs = list(D.seq_values(t, D.one_val if len(fs) > 4 else (lambda x: D.spread(D.vals(x), 6))))
    else:
        vs = D.vals(t)
    good = []
    for v in vs:
        try:
            good.append((v, M.encode_w(t, v)))
        except (M.DontCare, M.Reject):
            pass
    return D.spread(good, n)


def one(schema, txt, ctx, n, types=None):
    ctx.traces += 1
    try:
        ns = S.load(L.parse_asn1_schema(txt))
    except Exception as e:
        ctx.fail('load|%s' % txt, '%s: %s for the schema\n%s' % (type(e).__name__, str(e)[:200], txt), schema=txt)
        return
    ts = types or S.resolve(schema)[0]
    for name, t in ts.items():
        c = ns.get(S.pyname(name))
        for v, w in values(t, n):
            want = M.tobytes(w.value())
            K.count_states(ctx, t, w)
            ctx.traces += 1
            r = run_value(t, v, c, want)
            ctx.outcome(want)
            if r:
                ctx.fail('e2e|%s|%s|%r' % (txt, name, v), 'value %s of %s: %s, for the schema\n%s' % (K.short(v), name, r, txt), schema=txt, name=name, value=repr(v))
                if ctx.cut():
                    return
                break
            if ctx.sample is None and len(want) > 2:
                ctx.sample = {'schema': txt, 'type': name, 'value': K.short(v), 'bytes': K.short(want.hex())}


def run_value(t, v, c, want):
    for how in (L.make, L.fill):
        try:
            b = L.encode(how(t, v, c))
        except Exception as e:
            return '%s: encode raised %s: %s, expected %s' % (how.__name__, type(e).__name__, str(e)[:200], K.short(want.hex()))
        if b != want:
            return '%s: encoded as %s, expected %s' % (how.__name__, K.short(b.hex()), K.short(want.hex()))
    try:
        got = L.read(t, L.decode(want, asn1Spec=c()))
    except Exception as e:
        return 'decode of %s raised %s: %s' % (K.short(want.hex()), type(e).__name__, str(e)[:200])
    if got != M.norm(t, v):
        return 'decode of %s gave %s' % (K.short(want.hex()), K.short(got))
    return None


def mixed_seq():
    """extension additions written after an addition group (the order on the wire is the textual order)"""
    A = lambda n, t: Field(n, t)
    for ext in ((Group(A('b', D.I3)), A('c', D.I8)), (A('x', D.B), Group(A('b', D.I3)), A('c', D.I8)), (Group(A('b', D.I3)), A('c', D.I8), Group(A('d', D.B)))):
        yield Seq((Field('a', D.B),), ext)


def run(p, ctx):
    kind, tier = p[0], p[-1]
    n = NV[tier]
    forms = 3 if tier == 'thorough' else 1
    if kind == 'place':
        ts = F.leaf_types() + F.seqof_types() + F.con_types()
        for i in p[1]:
            for j, sc in enumerate(F.placements(ts[i])):
                for f in range(forms):
                    one(sc, S.text(sc, form=(i + j + f) % 6), ctx, n)
            ctx.flush_states()
    elif kind == 'values':
        for sc in F.value_schemas():
            one(sc, S.text(sc), ctx, n)
    elif kind == 'enums':
        for i, (items_, t) in enumerate(F.mixed_enums()):
            if i % 3 == 0 or tier == 'thorough':
                one([Assign('Top', t)], 'Mod DEFINITIONS ::= BEGIN Top ::= ENUMERATED { %s } END' % items_, ctx, 60)
    elif kind == 'graphs':
        for _, sc in F.graphs():
            for f in range(3):
                one(sc, S.text(sc, form=f), ctx, 60)
    elif kind == 'root2':
        for r1, x, r2 in F.second_root():
            sc = [Assign('Top', Seq(tuple(r1) + tuple(r2), tuple(x)))]
            one(sc, C13.text2(r1, x, r2, 0), ctx, 40)
    elif kind == 'choice':
        for t in list(F.choice_shapes()) + list(F.mixed_choice()):
            one([Assign('Top', t)], S.text([Assign('Top', t)]), ctx, 60)
            sc = [Assign('Top', Seq((Field('c', t), Field('d', D.I8, True)), None))]
            one(sc, S.text(sc), ctx, 40)
    elif kind == 'shape':
        for s in p[1]:
            sc = [Assign('Top', D.shape_type(s))]
            one(sc, S.text(sc), ctx, n)
            ctx.flush_states()
    elif kind == 'nest':
        for t in p[1]:
            sc = [Assign('Top', t)]
            one(sc, S.text(sc), ctx, n)
        ctx.flush_states()
    elif kind == 'deep':
        for t in F.deep(p[1], p[2]):
            sc = [Assign('Top', t)]
            one(sc, S.text(sc), ctx, n)
        ctx.flush_states()
    elif kind == 'mixedseq':
        for t in mixed_seq():
            sc = [Assign('Top', t)]
            one(sc, S.text(sc), ctx, 60)
    elif kind == 'words':
        for w in p[1]:
            for sc in F.word_schemas(w):
                one(sc, S.text(sc), ctx, n)
        for sc in F.attribute_schemas():
            one(sc, S.text(sc), ctx, n)
    elif kind == 'readme':
        one(README, README_TEXT, ctx, 400)


SN, PORT, TS = Int(0, 65535), Int(10000, 65535), Seq((Field('seconds', Int(0, 4294967295)), Field('useconds', Int(0, 4294967295))), None)
PAYLOAD = SeqOf(Ref('Message'), 1, 5)
START = Seq((Field('sequenceNumber', Ref('SequenceNumber')), Field('timestamp', Ref('UTC-Timestamp')), Field('srcPort', Ref('Port')), Field('dstPort', Ref('Port'))), None)
README = [Assign('SimpleMessage', Choice((('start', Ref('Start')), ('stop', Ref('Stop')), ('alive', Ref('Alive')), ('data', Ref('Data'))), ())),
          Assign('Start', START), Assign('Stop', START), Assign('Alive', Seq((Field('timestamp', Ref('UTC-Timestamp')),), ())),
          Assign('Data', Seq((Field('sequenceNumber', Ref('SequenceNumber')), Field('swRelease', Enum((('rel1', 0), ('rel2', 1), ('rel3', 2)), ())),
                              Field('macroId', Bits(20, 20), True), Field('payload', Ref('Payload'))), None)),
          Assign('Port', PORT), Assign('SequenceNumber', SN), Assign('UTC-Timestamp', TS), Assign('Payload', PAYLOAD), Assign('Message', Octs(1, 4))]
README_TEXT = '''SimpleProtocol DEFINITIONS AUTOMATIC TAGS ::=
BEGIN
SimpleMessage ::= CHOICE {
    start    Start,
    stop     Stop,
    alive    Alive,
    data     Data,
    ...
}

Start ::= SEQUENCE {
    sequenceNumber    SequenceNumber,
    timestamp         UTC-Timestamp,
    srcPort           Port,
    dstPort           Port
}

Stop ::= SEQUENCE {
    sequenceNumber    SequenceNumber,
    timestamp         UTC-Timestamp,
    srcPort           Port,
    dstPort           Port
}

Alive ::= SEQUENCE {
    timestamp         UTC-Timestamp,
    ...
}

Data ::= SEQUENCE {
    sequenceNumber    SequenceNumber,
    swRelease         ENUMERATED {rel1, rel2, rel3, ...},
    macroId           BIT STRING (SIZE(20)) OPTIONAL,
    payload           Payload
}

Port ::= INTEGER (10000..65535)

SequenceNumber ::= INTEGER (0..65535)

UTC-Timestamp ::= SEQUENCE {
    seconds     INTEGER (0..4294967295),
    useconds    INTEGER (0..4294967295)
}

Payload ::= SEQUENCE (SIZE(1..5)) OF Message

Message ::= OCTET STRING (SIZE(1..4))

END
'''
