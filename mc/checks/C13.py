"""Parser: the generated module loads and declares exactly what the schema says."""
from .. import domains as D, codec as K, model as M, lib as L, schema as S, schemas as F
from ..schema import *       # noqa
from ..model import *        # noqa
PROPERTY = 'C13'
RULE = ('every schema of the families is printed to ASN.1 text in every spelling form, parsed, the generated code is executed and its classes are '
        'read back into model types: names, order, OPTIONAL / DEFAULT, extension markers, additions, groups, numbers of enumerations, bounds, sizes '
        'and values have to be the ones of the schema; module-level names are exactly the assignments; types written in place are reachable as '
        'attribute of their parent')
ASSUMPTIONS = ['names do not collide with Python keywords nor with the names the generated module imports',
               'constructs of the README table; unions, intersections, open endpoints (<), permitted alphabets, character strings, NULL, SET and tags are outside']
FORMS = 6
HEADER = None


def BOUNDS(tier):
    return ('%d simple, %d list and %d constructed types x every placement x %d spellings; all SEQUENCE shapes and CHOICE shapes of tier %s; nested types of depth 1 and 2 '
            '(3 in the thorough tier); value references' % (len(F.leaf_types()), len(F.seqof_types()), len(F.con_types()), FORMS, tier))


def items(tier):
    out = []
    ts = F.leaf_types() + F.seqof_types() + F.con_types()
    for i, c in enumerate(D.chunks(range(len(ts)), 4)):
        out.append(('place.%d' % i, ('place', tuple(c), tier)))
    out.append(('values', ('values', tier)))
    out.append(('root2', ('root2', tier)))
    for i in range(8):
        out.append(('enums.%d' % i, ('enums', i, tier)))
    out.append(('choice', ('choice', tier)))
    for i, c in enumerate(D.chunks(F.shapes(tier), 60)):
        out.append(('shape.%d' % i, ('shape', tuple(c), tier)))
    l1, l2, l3 = D.NESTED(tier)
    for d, l in ((1, l1), (2, l2)) + (((3, l3),) if tier == 'thorough' else ()):
        for i, c in enumerate(D.chunks(l, 60)):
            out.append(('nest%d.%d' % (d, i), ('nest', tuple(c), tier)))
    for i, c in enumerate(D.chunks([(n, tuple(F.STEPS)) for n in (3, 4)] + [(n, ('seq', 'cho')) for n in (5, 6, 7)] + ([(5, tuple(F.STEPS)), (10, ('seq', 'cho'))] if tier == 'thorough' else []), 1)):
        out.append(('deep.%d' % i, ('deep', tuple(c), tier)))
    out.append(('wide', ('wide', tier)))
    for i, c in enumerate(D.chunks(RESERVED, 4)):
        out.append(('names.%d' % i, ('names', tuple(c))))
    out += [('words.%d' % i, ('words', tuple(c))) for i, c in enumerate(D.chunks(F.WORDS, 12))] + [('shadow', ('shadow',))]
    return out


RESERVED = ('INTEGER', 'BOOLEAN', 'ENUMERATED', 'SEQUENCE', 'CHOICE', 'BIT', 'OCTET', 'STRING', 'OF', 'END', 'BEGIN', 'SIZE', 'OPTIONAL', 'DEFAULT', 'MIN', 'MAX', 'TRUE', 'FALSE',
            'NULL', 'REAL', 'SET', 'DATE', 'TAGS', 'AUTOMATIC', 'DEFINITIONS', 'IA5String', 'UTF8String', 'VisibleString', 'NumericString', 'FROM')


def header():
    global HEADER
    if HEADER is None:
        HEADER = {k: v for k, v in S.load(L.parse_asn1_schema('Empty DEFINITIONS ::= BEGIN END')).items() if not k.startswith('__')}
    return HEADER


def expose(t, cls, where):
    """types written in place are attributes of the class they are written in (README: Data.swRelease)"""
    if t[0] == 'Seq':
        items = [(f.name, f.type) for f in M.fields(t)]
    elif t[0] == 'Choice':
        items = M.alternatives(t)
    else:
        return None
    for n, ty in items:
        inplace = ty[0] in ('Seq', 'Choice', 'SeqOf', 'Enum') or (ty[0] in ('Int', 'Bits', 'Octs') and (ty.lb is not None or ty.ub is not None or ty.ext))
        if not inplace:
            continue
        sub = cls.__dict__.get(S.pyname(n))
        comp = cls.componentType.getTypeByPosition(cls.componentType.getPositionByName(n))
        if sub is None or not isinstance(sub, type):
            return '%s has no attribute %s' % (where, S.pyname(n))
        if comp.__class__ is not sub:
            return 'component %s of %s is a %s, not %s.%s' % (n, where, comp.__class__.__name__, where, S.pyname(n))
        r = expose(ty, sub, where + '.' + S.pyname(n))
        if r:
            return r
    return None


def judge(schema, txt):
    """None or what is wrong"""
    try:
        code = L.parse_asn1_schema(txt)
    except Exception as e:
        return 'parse_asn1_schema raised %s: %s' % (type(e).__name__, str(e)[:200])
    if not isinstance(code, str):
        return 'parse_asn1_schema returned %r' % (code,)
    try:
        ns = S.load(code)
    except Exception as e:
        return 'the generated module does not load: %s: %s' % (type(e).__name__, str(e)[:200])
    return compare(schema, ns)


def compare(schema, ns):
    ts, vs = S.resolve(schema)
    own = {k for k in ns if not k.startswith('__')} - set(header())
    want = {S.pyname(a.name) for a in schema}
    if own != want:
        return 'module defines %s, expected %s' % (sorted(own), sorted(want))
    for k, v in header().items():
        if ns.get(k) is not v and k not in ('MIN', 'MAX'):
            return 'module redefines %s' % k
    for n, ty in ts.items():
        cls = ns[S.pyname(n)]
        try:
            d = S.declared(cls())
        except Exception as e:
            return 'type %s cannot be read back: %s: %s' % (n, type(e).__name__, str(e)[:200])
        if S.canon(d) != S.canon(ty):
            return 'type %s is declared as %s, expected %s' % (n, K.short(S.canon(d)), K.short(S.canon(ty)))
    for a in schema:
        if isinstance(a, Assign) and a.type[0] != 'Ref':
            r = expose(a.type, ns[S.pyname(a.name)], a.name)
            if r:
                return r
        if isinstance(a, Assign) and a.type[0] == 'Ref' and not issubclass(ns[S.pyname(a.name)], ns[S.pyname(a.type.name)]):
            return '%s is not %s' % (a.name, a.type.name)
    for n, (ty, v) in vs.items():
        try:
            got = L.read(ty, ns[S.pyname(n)])
        except Exception as e:
            return 'value %s cannot be read: %s: %s' % (n, type(e).__name__, e)
        if got != M.norm(ty, v):
            return 'value %s is %r, expected %r' % (n, got, v)
    return None


def one(schema, forms, ctx, render=None):
    seen = set()
    for form in range(forms):
        txt = (render or S.text)(schema, form=form)
        if txt in seen:
            continue
        seen.add(txt)
        ctx.state(txt)
        ctx.transitions += len(schema)
        ctx.traces += 1
        r = judge(schema, txt)
        ctx.outcome(txt)
        if r:
            ctx.fail('decl|%s' % txt, '%s for the schema\n%s' % (r, txt), schema=txt)
            if ctx.cut():
                return
        elif ctx.sample is None:
            ctx.sample = {'schema': txt}


def text2(r1, x, r2, form):
    """root2 spelling"""
    p = S.Printer({}, form)
    parts = [p.field(f) for f in r1] + [['...']]
    for e in x:
        if isinstance(e, Group):
            g = []
            for i, f in enumerate(e):
                g += ([','] if i else []) + p.field(f)
            parts.append(['[['] + g + [']]'])
        else:
            parts.append(p.field(e))
    parts.append(['...'])
    parts += [p.field(f) for f in r2]
    body = ' , '.join(' '.join(q) for q in parts)
    return 'Mod DEFINITIONS ::= BEGIN\nTop ::= SEQUENCE { %s }\nEND\n' % body


def run(p, ctx):
    kind = p[0]
    if kind == 'place':
        ts = F.leaf_types() + F.seqof_types() + F.con_types()
        for i in p[1]:
            for sc in F.placements(ts[i]):
                one(sc, FORMS, ctx)
    elif kind == 'values':
        for sc in F.value_schemas():
            one(sc, 2, ctx)
            one(list(reversed(sc)), 1, ctx)
    elif kind == 'root2':
        for r1, x, r2 in F.second_root():
            one([Assign('Top', Seq(tuple(r1) + tuple(r2), tuple(x)))], 6, ctx, lambda sc, form: text2(r1, x, r2, form))
    elif kind == 'enums':
        for i, (items_, t) in enumerate(F.mixed_enums()):
            if i % 8 == p[1]:
                one([Assign('Top', t)], 1, ctx, lambda sc, form: 'Mod DEFINITIONS ::= BEGIN Top ::= ENUMERATED { %s } END' % items_)
                if i % 24 == p[1]:
                    one([Assign('Top', Seq((Field('e', t), Field('f', t, False, t.root[-1][0])), ()))], 1, ctx,
                        lambda sc, form: 'Mod DEFINITIONS ::= BEGIN Top ::= SEQUENCE { e ENUMERATED { %s }, f ENUMERATED {%s} DEFAULT %s, ... } END' % (items_, items_, t.root[-1][0]))
    elif kind == 'choice':
        for t in F.choice_shapes():
            one([Assign('Top', t)], 3, ctx)
            one([Assign('Top', Seq((Field('c', t), Field('d', Ref('Sub'), True)), None)), Assign('Sub', t)], 1, ctx)
        for t in F.mixed_choice():
            txt = S.text([Assign('Top', t)])
            ctx.state(txt)
            ctx.transitions += 1
            ctx.traces += 1
            r = mixed(t, txt)
            if r:
                ctx.fail('mixed|%s' % txt, '%s for the schema\n%s' % (r, txt), schema=txt)
    elif kind == 'shape':
        for s in p[1]:
            one([Assign('Top', D.shape_type(s))], 3 if len(s[0]) < 2 else 1, ctx)
            ctx.flush_states()
    elif kind == 'nest':
        for t in p[1]:
            one([Assign('Top', t)], 1, ctx)
    elif kind == 'names':
        for w in p[1]:
            for n in (w + 'x', w + '-x', w + '1', w + '-' + w):
                for t, d in ((Int(0, 3), 2), (Octs(1, 2), b'\x01'), (Seq((Field('x', D.B),), ()), None)):
                    sc = [Assign(n, t), Assign('Top', Seq((Field('f', Ref(n)), Field('g', Ref(n), True)), (Field('h', Ref(n)), Group(Field('i', Ref(n)), Field('j', D.B))))),
                          Assign('L', SeqOf(Ref(n))), Assign('M', SeqOf(Ref(n), 0, 2)), Assign('C', Choice((('f', Ref(n)),), (('g', Ref(n)), Group(('h', Ref(n)))))), Assign('K', Ref(n))]
                    if d is not None:
                        sc.append(Assign('D', Seq((Field('f', Ref(n), False, d), Field('g', D.B)), None)))
                        sc.append(Value('v', Ref(n), d))
                    one(sc, 1, ctx)
                    one(list(reversed(sc)), 1, ctx)
            low = w[0].lower() + w[1:]
            for n in (low, w.lower() + 'x', low + '-' + w, 'x-' + w, low + '1'):
                sc = [Value(n + 'v', Int(), 3), Assign('Top', Seq((Field(n, Int(0, V(n + 'v'))), Field(n + 'a', D.B, True)), (Field(n + 'b', Octs(V(n + 'v'), V(n + 'v'))), Group(Field(n + 'c', D.B), Field(n + 'd', Int(), False, V(n + 'v')))))),
                      Assign('E', Enum(((n, 0), (n + 'x', 1)), ((n + 'y', 2),))), Assign('C', Choice(((n, D.B),), ((n + '-y', SeqOf(D.I3)),))), Assign('D', Seq((Field('e', Ref('E'), False, n),), None))]
                one(sc, 2, ctx)
    elif kind == 'words':
        for w in p[1]:
            for sc in F.word_schemas(w):
                one(sc, 1, ctx)
    elif kind == 'shadow':
        for sc in F.attribute_schemas():
            one(sc, 1, ctx)
        for f in (Field('a', D.B), Field('a', D.IU), Field('a', Int(0, 9)), Field('z', Seq((Field('a', Int(0, 9)),), None))):
            for d in (Field('b', Int(), False, V('a')), Field('b', Int(0, V('a')))):
                one([Value('a', Int(), 5), Assign('Top', Seq((f, d), None))], 1, ctx)
    elif kind == 'deep':
        for n, steps in p[1]:
            for t in F.deep(n, steps):
                one([Assign('Top', t)], 1, ctx)
            ctx.flush_states()
    elif kind == 'wide':
        for n in (5, 10, 20, 40):
            fs = tuple(Field('f%d' % i, D.leaf(i)[0], i % 3 == 1) for i in range(n))
            one([Assign('Top', Seq(fs, None))], 1, ctx)
            one([Assign('Top', Seq(fs[:2], fs[2:]))], 1, ctx)
            one([Assign('Top', Choice(tuple((f.name, f.type) for f in fs), ()))], 1, ctx)
            one([Assign('Top', Enum(tuple(('e%d' % i, i) for i in range(n)), ()))], 2, ctx)
            one([Assign('T%d' % i, Seq((Field('x', Ref('T%d' % (i + 1))),), None)) for i in range(n)] + [Assign("T%d" % n, D.B)], 1, ctx)
            one([Assign('T%d' % i, Ref('T%d' % (i + 1))) for i in range(n)] + [Assign('T%d' % n, Int(0, 3))], 1, ctx)


def mixed(t, txt):
    """alternatives in text order; how additions and groups are split is not observable for a CHOICE"""
    try:
        ns = S.load(L.parse_asn1_schema(txt))
        d = S.declared(ns['Top']())
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])
    a = [(n, S.canon(x)) for n, x in M.alternatives(d)]
    b = [(n, S.canon(x)) for n, x in M.alternatives(t)]
    if a != b:
        return 'alternatives are %r, expected %r' % (a, b)
    return None
