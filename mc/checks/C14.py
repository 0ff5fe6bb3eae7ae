"""Parser: the order in which a schema lists its assignments has no influence on the generated module."""
import itertools
from .. import domains as D, model as M, lib as L, schema as S, schemas as F
from ..schema import *       # noqa
from ..model import *        # noqa
from .C13 import compare, judge
PROPERTY = 'C14'
RULE = ('every dependency graph of the families is written in every textual order of its assignments (all permutations), parsed, loaded, and the '
        'classes and constants read back: each has to be what the schema says, so no order fails and all orders mean the same')
ASSUMPTIONS = ['names do not collide with Python keywords nor with the names the generated module imports', 'no recursive types (they have no finite Python class body; outside the supported notation)']
B, I3 = D.B, D.I3


def BOUNDS(tier):
    n, pats = SIZE[tier]
    return ('%d hand-listed graphs; all acyclic reference graphs over %d definitions x %d assignments of kinds; every pair and (thorough) triple of reference positions (%d) in a chain; '
            'value references through every position (%d); %d schemas that use one name for several things; all permutations of each' % (len(list(F.graphs())), n, pats, len(POS), len(VPOS), len(list(F.namesakes()))))


SIZE = {'quick': (4, 8), 'thorough': (5, 4)}

# where a type can refer to another one
POS = {
    'alias': lambda r: r,
    'root': lambda r: Seq((Field('a', r),), None),
    'opt': lambda r: Seq((Field('b', B), Field('a', r, True)), None),
    'add': lambda r: Seq((Field('b', B),), (Field('a', r),)),
    'group': lambda r: Seq((Field('b', B),), (Group(Field('c', B), Field('a', r, True)),)),
    'alt': lambda r: Choice((('b', B), ('a', r)), None),
    'altadd': lambda r: Choice((('b', B),), (('a', r),)),
    'altgroup': lambda r: Choice((('b', B),), (Group(('c', B), ('a', r)),)),
    'elem': lambda r: SeqOf(r, 0, 3),
    'inelem': lambda r: Seq((Field('l', SeqOf(r)),), None),
    'deep': lambda r: Seq((Field('c', Choice((('s', Seq((Field('a', r), Field('l', SeqOf(SeqOf(r)))), ())), ('b', B)), ())),), None),
}
V1 = V('n-val')
VPOS = {
    'ub': lambda: Int(0, V1), 'lb': lambda: Int(V1, None), 'both': lambda: Int(V1, V1, True), 'octs': lambda: Octs(1, V1), 'bits': lambda: Bits(V1, V1), 'list': lambda: SeqOf(B, 0, V1),
    'elem': lambda: SeqOf(Int(0, V1)), 'field': lambda: Seq((Field('a', Int(0, V1)),), None), 'opt': lambda: Seq((Field('a', Octs(0, V1), True),), None),
    'add': lambda: Seq((Field('b', B),), (Field('a', Bits(0, V1, True)), Group(Field('c', SeqOf(B, 1, V1)),))), 'alt': lambda: Choice((('a', Int(V1, 100)),), None),
    'altadd': lambda: Choice((('b', B),), (('a', Octs(V1, V1)),)), 'default': lambda: Seq((Field('a', Int(), False, V1),), ()), 'adddefault': lambda: Seq((Field('b', B),), (Field('a', Int(), False, V1),)),
    'groupdefault': lambda: Seq((Field('b', B),), (Group(Field('c', B), Field('a', Int(), False, V1)),)),
    'deep': lambda: Seq((Field('c', Choice((('s', Seq((Field('l', SeqOf(SeqOf(Int(0, V1), 0, V1))),), ())), ('b', B)), ())),), None),
}
LEAVES = (Int(0, 9), Octs(1, 3), Enum((('p', 0), ('q', 1)), ()), Seq((Field('z', B),), None), Choice((('z', B),), ()), SeqOf(B, 0, 2))
NAMES = ('Dd', 'Bb', 'Ee', 'Aa', 'Cc')       # neither in alphabetical order nor its reverse


def node(i, deps, pat):
    if not deps:
        return LEAVES[(i + pat) % len(LEAVES)]
    rs = [Ref(NAMES[d]) for d in deps]
    if len(rs) == 1:
        ks = list(POS)
        return POS[ks[(i * 3 + pat) % len(ks)]](rs[0])
    k = (i + pat) % 4
    if k == 0:
        return Seq(tuple(Field('f%d' % j, r, j % 2 == 1) for j, r in enumerate(rs)), None)
    if k == 1:
        return Choice(tuple(('f%d' % j, r) for j, r in enumerate(rs)), ())
    if k == 2:
        return Seq((Field('b', B), Field('f', rs[0])), tuple(Field('f%d' % j, r, True) for j, r in enumerate(rs[1:])))
    return Seq((Field('l', SeqOf(rs[0])), Field('c', Choice((('z', B),), tuple(('f%d' % j, r) for j, r in enumerate(rs[1:]))))), ())


def dags(n):
    """all acyclic graphs with a fixed topological order (the permutations of the text do the rest)"""
    edges = [(i, j) for i in range(n) for j in range(i)]
    for bits in itertools.product((0, 1), repeat=len(edges)):
        yield [tuple(j for (a, j), b in zip(edges, bits) if b and a == i) for i in range(n)]


def items(tier):
    out = [('graph.%s' % n, ('graph', n)) for n, _ in F.graphs()]
    n, pats = SIZE[tier]
    ds = list(dags(n))
    for pat in range(pats):
        for i, c in enumerate(D.chunks(ds, 16 if n == 4 else 32)):
            out.append(('dag%d.%d.%d' % (n, pat, i), ('dag', tuple(tuple(x) for x in c), pat)))
    for i, c in enumerate(D.chunks(range(len(list(F.namesakes()))), 6)):
        out.append(('same.%d' % i, ('same', tuple(c))))
    for p in POS:
        out.append(('pos.%s' % p, ('pos', p, tier)))
    for p in VPOS:
        out.append(('val.%s' % p, ('val', p)))
    return out


def orders(schema, ctx):
    for perm in itertools.permutations(schema):
        txt = S.text(list(perm))
        ctx.state(txt)
        ctx.transitions += len(perm)
        ctx.traces += 1
        r = judge(list(perm), txt)
        ctx.outcome(r is None)
        if r:
            ctx.fail('order|%s' % txt, '%s for the schema\n%s' % (r, txt), schema=txt)
            if ctx.cut():
                return
        elif ctx.sample is None and perm[0] is not schema[0]:
            ctx.sample = {'schema': txt, 'permutations': len(schema)}


def run(p, ctx):
    if p[0] == 'graph':
        orders(dict(F.graphs())[p[1]], ctx)
    elif p[0] == 'same':
        ss = list(F.namesakes())
        for i in p[1]:
            orders(ss[i], ctx)
    elif p[0] == 'dag':
        for d in p[1]:
            orders([Assign(NAMES[i], node(i, deps, p[2])) for i, deps in enumerate(d)], ctx)
    elif p[0] == 'pos':
        for q in POS:
            orders([Assign('Top', POS[p[1]](Ref('Mid'))), Assign('Mid', POS[q](Ref('Bottom'))), Assign('Bottom', Int(0, 9))], ctx)
            orders([Assign('A-top', POS[p[1]](Ref('B-mid'))), Assign('B-mid', POS[q](Ref('C-bottom'))), Assign('C-bottom', Seq((Field('k', B),), ()))], ctx)
            if p[2] == 'thorough':
                for r in POS:
                    orders([Assign('A', POS[p[1]](Ref('C'))), Assign('C', POS[q](Ref('Bb'))), Assign('Bb', POS[r](Ref('D'))), Assign('D', Octs(1, 2))], ctx)
    elif p[0] == 'val':
        for q in POS:
            sc = [Assign('Top', POS[q](Ref('Mid'))), Assign('Mid', VPOS[p[1]]()), Value('n-val', Int(), 4)]
            orders(sc, ctx)
            orders(sc[1:], ctx)
        mid = VPOS[p[1]]()
        orders([Assign('Mid', mid), Value('n-val', Ref('Num'), 4), Assign('Num', Int())], ctx)
        orders([Assign('Mid', mid), Value('n-val', Int(), V('a-val')), Value('a-val', Int(), 4)], ctx)
        orders([Assign('Mid', mid), Value('n-val', Ref('Num'), V('z-val')), Value('z-val', Ref('Num2'), 4), Assign('Num', Ref('Num2')), Assign('Num2', Int())], ctx)
