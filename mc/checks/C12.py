"""to_dict(): the plain-Python view of a value is exactly that value, and taking it changes nothing."""
from .. import domains as D, codec as K, model as M, lib as L, schema as S, schemas as F
PROPERTY = 'C12'
RULE = ('every (type, value) of the primitive and constructed spaces: to_dict() of the object a user builds and of the object decode() '
        'returns equals the model dictionary (same keys, same order, same Python types); a second call gives the same, also after the '
        'first result was overwritten by the caller; encode() before and after give the same bytes')
ASSUMPTIONS = ['README "Dictionary creation" defines the mapping: ENUMERATED by name, BIT STRING as number, OCTET STRING as hex text; '
               'a SEQUENCE component that is itself a SEQUENCE without anything to show is left out of the dictionary (current behaviour)']


def BOUNDS(tier):
    return 'types and values of domains.prim_payloads (bare and at one bit offset) and con_payloads, tier %s' % tier


def items(tier):
    out = [('p.' + l, ('p', p, (1,) if offs else ())) for l, p, offs in D.prim_payloads(tier) if p[0] not in ('ranges', 'intall')]
    out += [('c.' + l, ('c', p, ())) for l, p in D.con_payloads(tier)]
    out += [('gen.readme', ('gen', 'readme', ()))] + [('gen.words.%d' % i, ('gen', c, ())) for i, c in enumerate(D.chunks(F.WORDS, 8))]
    out += [('gen.place.%d' % i, ('gen', tuple(c), ())) for i, c in enumerate(D.chunks(range(len(gen_types())), 24))]
    return out


def gen_types():
    return F.leaf_types() + F.seqof_types() + F.con_types()


def generated(what):
    """(schema, text): the classes are the ones the generated module declares"""
    if what == 'readme':
        from . import C17
        yield C17.README, C17.README_TEXT
    elif isinstance(what[0], str):
        for w in what:
            for sc in F.word_schemas(w):
                yield sc, S.text(sc)
        for sc in F.attribute_schemas():
            yield sc, S.text(sc)
    else:
        ts = gen_types()
        for i in what:
            for sc in F.placements(ts[i]):
                yield sc, S.text(sc)


def gen(what, ctx):
    from . import C17
    for sc, txt in generated(what):
        try:
            ns = S.load(L.parse_asn1_schema(txt))
        except Exception as e:
            ctx.fail('load|%s' % txt, '%s: %s for the schema\n%s' % (type(e).__name__, str(e)[:200], txt), schema=txt)
            continue
        for name, t in S.resolve(sc)[0].items():
            for v, _ in C17.values(t, 60 if what == 'readme' else 5):
                one(t, v, ns[S.pyname(name)], ctx)
        ctx.flush_states()


def plain(x):
    """canonical form that keeps order of keys and Python types apart"""
    if isinstance(x, dict):
        return ('dict', tuple((str(k), plain(y)) for k, y in x.items()))
    if isinstance(x, list):
        return ('list', tuple(plain(y) for y in x))
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, int):
        return ('int', int(x))
    if isinstance(x, str):
        return ('str', str(x))
    return ('other', type(x).__name__, repr(x))


def wreck(x):
    if isinstance(x, dict):
        for k in list(x):
            wreck(x[k])
            x[k] = 'overwritten'
        x['extra'] = 1
    elif isinstance(x, list):
        for y in x:
            wreck(y)
        del x[:]
        x.append('overwritten')


def one(t, v, c, ctx):
    try:
        w = M.encode_w(t, v)
    except (M.DontCare, M.Reject):
        return
    K.count_states(ctx, t, w)
    want = plain(M.to_dict(t, v))
    data = M.tobytes(w.value())

    def bad(what, got):
        ctx.fail('dict|%r|%r' % (t, v), '%s of %s value %s is %s, expected %s' % (what, K.short(t), K.short(v), K.short(got), K.short(want)),
                 type=repr(t), value=repr(v), kind='to_dict')
    for src in ('built', 'decoded', 'filled') if t[0] in ('Seq', 'SeqOf', 'Choice') else ('built', 'decoded'):
        ctx.traces += 1
        try:
            o = L.make(t, v, c) if src == 'built' else L.fill(t, v, c) if src == 'filled' else L.decode(data, asn1Spec=c())
            first = o.to_dict()
            b1 = L.encode(o)
            got = plain(first)
            wreck(first)
            again = plain(o.to_dict())
            b2 = L.encode(o)
            fresh = L.encode(L.make(t, v, c)) if src == 'built' else data
        except Exception as e:
            return bad('to_dict() of the %s object' % src, '%s: %s' % (type(e).__name__, str(e)[:200]))
        ctx.outcome(got)
        if got != want:
            return bad('to_dict() of the %s object' % src, got)
        if again != want:
            return bad('second to_dict() of the %s object' % src, again)
        if not (b1 == b2 == fresh):
            return bad('the encoding after to_dict() of the %s object' % src, (b1, b2, fresh))
    if ctx.sample is None and isinstance(M.to_dict(t, v), dict):
        ctx.sample = {'type': K.short(t), 'value': K.short(v), 'dict': K.short(M.to_dict(t, v))}


def run(p, ctx):
    kind, pl, offs = p
    if kind == 'gen':
        return gen(pl, ctx)
    K.sweep(D.expand_prim(pl) if kind == 'p' else D.expand_con(pl), offs, ctx, one)
