"""Bounded families of schemas: every family is a finite list, produced completely and deterministically."""
import itertools
from . import domains as D
from .schema import *        # noqa
from .model import *         # noqa

B, I3, I8, OV, BV, IU = D.B, D.I3, D.I8, D.OV, D.BV, D.IU


def leaf_types():
    """every kind of constraint on every kind of simple type"""
    out = [Bool(), Int()]
    for lb, ub in [(0, 0), (5, 5), (-7, -7), (0, 1), (0, 255), (1, 256), (0, 65535), (0, 65536), (-5, -1), (-128, 127), (10000, 65535),
                   (0, 4294967295), (-1, 18446744073709551615), (0, None), (7, None), (-25, None), (None, 0), (None, 9), (None, -3)]:
        out += [Int(lb, ub), Int(lb, ub, True)]
    for cls in (Bits, Octs):
        out.append(cls())
        for lb, ub in [(0, 0), (1, 1), (4, 4), (20, 20), (0, 1), (0, 30), (1, 10), (3, 65535), (0, 65536), (0, None), (5, None)]:
            out += [cls(lb, ub), cls(lb, ub, True)]
    out += enum_types()
    simple = [t for t in D.MIX if t[0] == 'Int' or t[0] in ('Bits', 'Octs') and (t.lb is not None or t.ub is None)]
    return out + [t for t in simple if t not in out]


def enum_types():
    names = ('red', 'green', 'dark-blue', 'x4', 'e', 'f', 'g')
    auto = lambda n, m: Enum(tuple((names[i], i) for i in range(n)), None if m is None else tuple((names[n + i], n + i) for i in range(m)))
    out = [auto(n, m) for n in (1, 2, 3, 4) for m in (None, 0, 1, 3)]
    out.append(Enum((('a', 5), ('b', 2)), None))
    out.append(Enum((('a', 5), ('b', 2)), ()))
    out.append(Enum((('a', 1), ('b', 0), ('c', 7)), (('x', 2), ('y', 9))))
    out.append(Enum((('a', -1), ('b', 3)), (('x', 10),)))
    out.append(Enum((('a', -5), ('b', -2), ('c', 100)), None))
    out.append(Enum((('a', 12), ('b', -2), ('c', -300)), (('x', -1), ('y', 70000))))
    out.append(Enum((('a', 0), ('b', 10)), (('x', 3), ('y', 12))))
    return out


def mixed_enums():
    """items with and without a number in every mixture: (spelling, type), numbers by X.680 20.3 - 20.6"""
    for n in (1, 2, 3):
        for root in itertools.product((None, 0, 1, 2, 5, -2), repeat=n):
            exp = [x for x in root if x is not None]
            if len(set(exp)) != len(exp):
                continue
            for m in (None, 0, 1, 2):
                for ext in itertools.product((None, 2, 3, 7), repeat=m or 0):
                    if n == 3 and m == 2 and ext.count(None) == 0:
                        continue
                    t = number(root, None if m is None else ext)
                    if t is None:
                        continue
                    show = lambda nm, x: nm if x is None else '%s(%d)' % (nm, x)
                    parts = [show('r%d' % i, x) for i, x in enumerate(root)]
                    if m is not None:
                        parts += ['...'] + [show('x%d' % i, x) for i, x in enumerate(ext)]
                    yield ', '.join(parts), t


def number(root, ext):
    used = {x for x in root if x is not None}
    out, k = [], 0
    for i, x in enumerate(root):
        if x is None:
            while k in used:
                k += 1
            x = k
            used.add(x)
        out.append(('r%d' % i, x))
    if ext is None:
        return Enum(tuple(out), None)
    xs, last = [], -1
    for i, x in enumerate(ext):
        if x is None:
            x = last + 1
            while x in used:
                x += 1
        elif x <= last or x in used:
            return None
        last = x
        xs.append(('x%d' % i, x))
    return Enum(tuple(out), tuple(xs))


def seqof_types():
    e = [B, I3, IU, OV, Octs(), BV, Bits(4, 4), Int(0, 9, True), Enum((('p', 0), ('q', 1)), ()), SeqOf(B), SeqOf(I3, 1, 2),
         Seq((Field('k', B), Field('l', I3, True)), None), Choice((('k', B), ('l', I3)), ())]
    out = []
    for el in e:
        out.append(SeqOf(el))
    for lb, ub in [(0, 0), (3, 3), (0, 3), (1, 5), (2, None), (0, 65535)]:
        for ext in (False, True):
            out += [SeqOf(I3, lb, ub, ext), SeqOf(B, lb, ub, ext)]
    return out


def con_types():
    return [Seq((), None), Seq((), ()), Seq((Field('k', B),), None), Seq((Field('k', I3, True), Field('m', OV)), ()),
            Seq((Field('k', B),), (Field('m', I3), Group(Field('n', Octs(1, 2), True), Field('o', B)))),
            Choice((('k', B),), None), Choice((('k', I3), ('m', OV)), ()), Choice((('k', I3),), (('m', B), Group(('n', Octs(1, 2)), ('o', B))))]


def defaults(t):
    k = t[0]
    if k == 'Bool':
        return [True, False]
    if k == 'Int':
        vs = [v for v in (0, 1, -1, 5, 10, -7, 300) if in_size(v, t.lb, t.ub)]
        return (vs or [t.lb if t.lb is not None else t.ub])[:3]
    if k == 'Enum':
        return [n for n, _ in t.root][-1:] + [n for n, _ in (t.ext or ())][-1:]
    if k == 'Bits':
        return [v for v in ('', '0', '0101', '10110000', '0' * 20) if in_size(len(v), t.lb, t.ub)][:3]
    if k == 'Octs':
        return [v for v in (b'', b'\x00', b'\xab\xcd\x01', b'\x00' * 4, b'\x01' * 20) if in_size(len(v), t.lb, t.ub)][:3]
    return []


def placements(t):
    """every position at which a type can be written in place"""
    yield [Assign('Top', t)]
    yield [Assign('Top', Seq((Field('f', t),), None))]
    yield [Assign('Top', Seq((Field('my-Field', t, True), Field('g', B)), None))]
    for d in defaults(t):
        yield [Assign('Top', Seq((Field('g', B), Field('f', t, False, d)), None))]
    for d in defaults(t)[:1]:
        yield [Assign('Top', Seq((Field('g', B),), (Field('f', t, False, d), Group(Field('h', t, False, d), Field('i', t)))))]
    yield [Assign('Top', Seq((Field('g', B),), (Field('f', t), Field('h', B, True))))]
    yield [Assign('Top', Seq((Field('g', B),), (Group(Field('h', B), Field('f', t, True)),)))]
    yield [Assign('Top', Choice((('f', t), ('g', B)), None))]
    yield [Assign('Top', Choice((('g', B),), (('f', t),)))]
    yield [Assign('Top', Choice((('g', B),), (('h', B), Group(('my-f', t), ('i', B)))))]
    yield [Assign('Top', SeqOf(t))]
    yield [Assign('Top', SeqOf(t, 1, 4))]
    yield [Assign('Top', Seq((Field('l', SeqOf(t, 0, 2, True)), Field('m', Seq((Field('f', t),), ()))), None))]
    yield [Assign('Top', Seq((Field('c', Choice((('f', t), ('s', Seq((Field('f', t, True),), None))), ())),), None))]
    # by reference
    yield [Assign('The-Type', t), Assign('Top', Seq((Field('f', Ref('The-Type')), Field('g', Ref('The-Type'), True)), (Field('h', Ref('The-Type')),)))]
    yield [Assign('Base', t), Assign('Alias', Ref('Base')), Assign('Alias-2', Ref('Alias')),
           Assign('Top', Choice((('f', Ref('Alias-2')), ('g', Ref('Base'))), (('h', Ref('Alias')),)))]
    yield [Assign('Base', t), Assign('Alias', Ref('Base')), Assign('Top', SeqOf(Ref('Alias'), 0, 3)), Assign('Top2', SeqOf(Ref('Base')))]
    for d in defaults(t):
        yield [Assign('Base', t), Assign('Alias', Ref('Base')), Assign('Alias2', Ref('Alias')),
               Assign('Top', Seq((Field('f', Ref('Base'), False, d), Field('g', Ref('Alias2'), False, d)), (Field('h', Ref('Alias'), False, d),)))]


def value_schemas():
    """value references in bounds, sizes and defaults"""
    for n in ('maxSize', 'max-size', 'm'):
        for vt in ('INTEGER', 'defined', 'alias', 'chain'):
            pre = {'INTEGER': [Value(n, Int(), 6)],
                   'defined': [Assign('Num', Int(0, 100)), Value(n, Ref('Num'), 6)],
                   'alias': [Assign('Num', Int()), Assign('Num2', Ref('Num')), Value(n, Ref('Num2'), 6)],
                   'chain': [Value('first-one', Int(), 6), Value(n, Int(), V('first-one'))]}[vt]
            for t in (Int(0, V(n)), Int(V(n), None), Int(V(n), V(n)), Int(-3, V(n), True), Octs(1, V(n)), Octs(V(n), V(n)), Bits(V(n), 20, True),
                      SeqOf(B, 0, V(n)), SeqOf(Int(0, V(n)), V(n), V(n)), Seq((Field('f', Int(0, V(n))), Field('g', Octs(1, V(n)), True)), ()),
                      Choice((('f', Bits(0, V(n))), ('g', B)), None)):
                yield pre + [Assign('Top', t)]
            yield pre + [Assign('Top', Seq((Field('f', Int(), False, V(n)), Field('g', Int(0, 50), False, V(n))), ()))]
    for (t, v, other) in [(Bool(), True, None), (Bool(), False, None), (Int(), -3, Int(-10, 10)), (Octs(), b'\xab\x00', Octs(1, 2)), (Octs(), b'', Octs(0, 2)),
                          (Bits(), '0110', Bits(4, 4)), (Bits(), '', Bits(0, 2)), (Int(), 0, Int(0, 7, True))]:
        for n in ('dflt', 'the-default'):
            yield [Value(n, t, v), Assign('Top', Seq((Field('f', t, False, V(n)), Field('g', other or t, False, V(n))), ()))]
            yield [Value(n, t, v), Assign('Top', Seq((Field('k', B),), (Field('f', t, False, V(n)), Group(Field('g', other or t, False, V(n)), Field('h', B)))))]
            yield [Assign('Base', t), Value(n, Ref('Base'), v), Assign('Top', Seq((Field('f', Ref('Base'), False, V(n)), Field('g', other or t, False, V(n))), None))]
            yield [Assign('Base', t), Assign('Ali', Ref('Base')), Value(n, Ref('Ali'), v), Assign('Top', Seq((Field('f', Ref('Base'), False, V(n)), Field('g', Ref('Ali'), False, V(n))), None))]
    e = Enum((('red', 0), ('light-red', 1)), None)
    for n in ('dflt', 'the-default'):
        yield [Assign('Base', e), Value(n, Ref('Base'), 'light-red'), Assign('Top', Seq((Field('f', Ref('Base'), False, V(n)), Field('g', Ref('Base'), False, 'red')), None))]
        yield [Assign('Base', e), Assign('Ali', Ref('Base')), Value(n, Ref('Ali'), 'light-red'), Assign('Top', Seq((Field('f', Ref('Base'), False, V(n)), Field('g', Ref('Ali'), False, V(n))), None))]


def second_root():
    """root components after the extension: the text order is root1, extension, root2; the type has root1 + root2"""
    fs = [Field('a', I3), Field('b', Octs(1, 2), True), Field('c', B, False, True)]
    xs = [(), (Field('x', I3),), (Field('x', I3, True), Group(Field('y', B), Field('z', OV, True)))]
    for n1 in range(0, 3):
        for n2 in range(1, 4 - n1):
            for x in xs:
                yield fs[:n1], x, fs[n1:n1 + n2]


def shapes(tier):
    return D.seq_shapes(tier)


def choice_shapes():
    for n in (1, 2, 3):
        root = tuple(('r%d' % i, D.leaf(i)[0]) for i in range(n))
        for a in range(0, 3):
            for gs in ((), (1,), (2,), (1, 2)):
                ext = [('x%d' % i, D.leaf(i + 2)[0]) for i in range(a)]
                for j, g in enumerate(gs):
                    ext.append(Group(*[('g%d%d' % (j, i), D.leaf(i + j)[0]) for i in range(g)]))
                yield Choice(root, tuple(ext))
        yield Choice(root, None)


def mixed_choice():
    """alternatives after a group (text order = index order)"""
    for pat in itertools.product('ag', repeat=3):
        ext, n = [], 0
        for p in pat:
            if p == 'a':
                ext.append(('x%d' % n, D.leaf(n)[0]))
                n += 1
            else:
                ext.append(Group(('x%d' % n, D.leaf(n)[0]), ('x%d' % (n + 1), D.leaf(n + 1)[0])))
                n += 2
        yield Choice((('r', B),), tuple(ext))


def graphs():
    """dependency graphs over up to 5 definitions, used in every textual order"""
    yield 'chain', [Assign('A', Int(0, 9)), Assign('Bb', Ref('A')), Assign('C', Ref('Bb')), Assign('D', Seq((Field('x', Ref('C')),), None))]
    yield 'alias-seq', [Assign('S', Seq((Field('d', Int()),), None)), Assign('S2', Ref('S')), Assign('S3', Ref('S')), Assign('S4', Ref('S2'))]
    yield 'diamond', [Assign('A', Octs(1, 3)), Assign('L', Seq((Field('x', Ref('A')),), ())), Assign('R', Choice((('x', Ref('A')),), None)),
                      Assign('T', Seq((Field('l', Ref('L')), Field('r', Ref('R'), True)), None))]
    yield 'listchain', [Assign('A', Seq((Field('x', B),), None)), Assign('L1', SeqOf(Ref('A'), 0, 3)), Assign('L2', SeqOf(Ref('L1'))),
                        Assign('T', Seq((Field('x', Ref('L2')), Field('y', SeqOf(Ref('L1'), 1, 2))), None))]
    yield 'values', [Value('n', Int(), 5), Assign('A', Octs(1, V('n'))), Assign('S', Seq((Field('a', Ref('A')), Field('b', Int(0, V('n')), False, V('n'))), ())), Assign('L', SeqOf(Ref('S'), 0, V('n')))]
    yield 'values2', [Assign('Num', Int(0, 40)), Value('k', Ref('Num'), 7), Value('j', Int(), V('k')), Assign('A', Octs(1, V('j'))), Assign('S', Seq((Field('a', Ref('A')), Field('b', Ref('Num'), False, V('k'))), None))]
    yield 'deflt', [Assign('E', Enum((('p', 0), ('q', 1)), ())), Assign('E2', Ref('E')), Value('e', Ref('E2'), 'q'), Assign('S', Seq((Field('a', Ref('E'), False, V('e')), Field('b', Ref('E2'), False, 'p')), None)), Assign('U', Ref('S'))]
    yield 'inline', [Assign('A', Bits(3, 9)), Assign('N', Ref('A')), Assign('S', Seq((Field('c', Choice((('a', Ref('A')), ('s', Seq((Field('n', Ref('N')),), None))), ())),
                                                                                      Field('l', SeqOf(SeqOf(Ref('N'))))), None)), Assign('T', SeqOf(Ref('S'), 2, 2))]
    yield 'ext', [Assign('A', Int(0, 3, True)), Assign('S', Seq((Field('k', B),), (Field('a', Ref('A')), Group(Field('t', Ref('T')), Field('b', Ref('A'), True))))), Assign('T', Choice((('k', B),), (('a', Ref('A')), Group(('v', Ref('U')),)))),
                  Assign('U', Seq((Field('z', B),), None))]
    yield 'deep', [Assign('P1', Seq((Field('x', Ref('P2')),), None)), Assign('P2', Choice((('x', Ref('P3')),), None)), Assign('P3', SeqOf(Ref('P4'))), Assign('P4', Seq((Field('x', Ref('P5')),), ())), Assign('P5', B)]
    yield 'fan', [Assign('Top', Choice((('a', Ref('Aa')), ('b', Ref('Bb')), ('c', Ref('Cc'))), ())), Assign('Aa', Seq((Field('t', Ref('Ts')), Field('c', Ref('Cc'), True)), None)),
                  Assign('Bb', Seq((Field('t', Ref('Ts')),), ())), Assign('Cc', SeqOf(Ref('Ts'), 1, 5)), Assign('Ts', Seq((Field('s', Int(0, 255)),), None))]
    yield 'aliasmix', [Assign('I', Int(0, 5)), Assign('J', Ref('I')), Assign('L', SeqOf(Ref('J'))), Assign('M', Ref('L')), Assign('S', Seq((Field('m', Ref('M')), Field('j', Ref('J'))), None))]
    yield 'hyph', [Assign('My-Int', Int(0, 5)), Assign('My-List', SeqOf(Ref('My-Int'), 0, V('list-max'))), Value('list-max', Ref('My-Num'), 3), Assign('My-Num', Int()), Assign('My-Seq', Seq((Field('my-l', Ref('My-List')),), ()))]
    yield 'choicealias', [Assign('C', Choice((('a', B), ('b', Ref('K'))), None)), Assign('K', Seq((Field('a', I3, True),), None)), Assign('C2', Ref('C')), Assign('S', Seq((Field('c', Ref('C2')), Field('k', Ref('K2'))), None)), Assign('K2', Ref('K'))]


STEPS = {
    'seq': lambda t, d: Seq((Field('a%d' % d, B), Field('s%d' % d, t)), None),
    'opt': lambda t, d: Seq((Field('s%d' % d, t, True), Field('z', I3)), ()),
    'cho': lambda t, d: Choice((('a%d' % d, B), ('s%d' % d, t)), None),
    'list': lambda t, d: SeqOf(t, 0, 2),
    'grp': lambda t, d: Seq((Field('a%d' % d, B),), (Group(Field('s%d' % d, t)),)),
}


def deep(n, steps=tuple(STEPS)):
    """every word of n steps: type written in place, n levels deep"""
    for w in itertools.product(steps, repeat=n):
        t = I3
        for d, k in enumerate(w):
            t = STEPS[k](t, d)
        yield t


WORDS = ('type', 'id', 'name', 'value', 'size', 'length', 'data', 'index', 'tag', 'key', 'len', 'list', 'dict', 'str', 'int', 'bytes', 'object', 'field', 'bit', 'max', 'min', 'range', 'set',
         'hash', 'format', 'sum', 'self', 'cls', 'super', 'property', 'optional', 'default', 'root', 'extension', 'enum', 'sequence', 'choice', 'string', 'octet', 'boolean', 'integer',
         'a', 'z', 'x1', 'aB', 'a-b', 'a-b-c', 'a1-b2', 'mod', 'top')


def word_schemas(w):
    """components, alternatives, items and values with ordinary (and, for Python, special) names"""
    leafs = (D.B, Int(0, 9), IU, Octs(1, 2), Enum(((w, 0), ('zz', 1)), ()), SeqOf(I3), Seq((Field(w, I3), Field('zz', B, True)), None), Choice(((w, I3), ('zz', B)), None))
    for t in leafs:
        yield [Assign('Top', Seq((Field(w, t), Field('zy', I3, True)), None))]
        yield [Assign('Top', Seq((Field('zy', I3), Field(w, t, True)), (Field('zx', I3),)))]
        yield [Assign('Top', Seq((Field('zy', I3),), (Field(w, t), Group(Field('zx', I3), Field('zw', B)))))]
        yield [Assign('Top', Choice(((w, t), ('zy', I3)), ()))]
        yield [Assign('Top', Choice((('zy', I3),), ((w, t), Group(('zx', I3)))))]
    yield [Value(w, Int(), 3), Assign('Top', Seq((Field('zy', Int(0, V(w))), Field('zx', Int(), False, V(w))), None))]


def attribute_schemas():
    """names that are also names of methods the library itself uses"""
    yield [Assign('Top', Choice((('items', Int(0, 9)), ('zy', I3)), ()))]
    yield [Assign('Top', Seq((Field('zy', I3, True),), (Field('items', Choice((('items', Int(0, 9)),), None)),)))]
    yield [Assign('Top', Seq((Field('components', Int(0, 9)), Field('zy', I3, True)), None))]
    yield [Assign('Top', Seq((Field('zz', Seq((Field('components', Int(0, 9), True), Field('zy', I3, True)), None), True),), (Field('zx', I3),)))]


def namesakes():
    """one name used for a value and, at other places, for something else: which one is meant depends on the place only"""
    e = Enum((('on', 0), ('off', 1)), None)
    x = Enum((('off', 0),), (('on', 1),))
    for t, v in ((Bool(), True), (Int(), 3), (Octs(), b'\xab'), (Bits(), '0110')):
        w = Value('on', t, v)
        uses = Assign('Uses', Seq((Field('p', t, False, V('on')), Field('q', B)), None))
        for en in (e, x):
            yield [w, Assign('Top', Seq((Field('e', en, False, 'on'), Field('f', t, False, V('on'))), None))]
            yield [w, Assign('Top', Seq((Field('k', B),), (Field('e', en, False, 'on'), Group(Field('f', t, False, V('on')), Field('g', en, False, 'on'))))), uses]
            yield [w, Assign('E', en), Assign('Top', Seq((Field('e', Ref('E'), False, 'on'), Field('g', Ref('E'), False, 'off')), ())), uses]
            yield [w, Assign('E', en), Assign('F', Ref('E')), Assign('Top', Seq((Field('e', Ref('F'), False, 'on'), Field('f', t, False, V('on'))), ()))]
            yield [w, Assign('E', en), Value('off', Ref('E'), 'off'), Assign('Top', Seq((Field('e', Ref('E'), False, V('off')), Field('f', Ref('E'), False, 'on')), ()))]
        yield [w, Assign('Top', Choice((('on', B), ('off', SeqOf(t))), ())), uses]
        yield [w, Assign('Top', Seq((Field('on', B), Field('off', t, False, V('on'))), ())), uses]
        yield [w, Assign('Top', Seq((Field('a', Seq((Field('on', I3),), None)),), (Field('on', OV), Group(Field('b', Choice((('on', I3),), None)))))), uses]
    n = Value('on', Int(), 3)
    yield [n, Assign('Top', Seq((Field('on', Int(0, V('on'))), Field('b', Octs(V('on'), V('on')))), None)), Assign('On', SeqOf(Int(0, V('on')), 0, V('on')))]
    yield [n, Assign('Top', Choice((('on', Int(0, V('on'))), ('off', SeqOf(B, 0, V('on')))), None)), Assign('On', Enum((('on', 0), ('off', 1)), None)), Assign('S', Seq((Field('e', Ref('On'), False, 'on'),), None))]
    yield [Value('a', Int(), 1), Value('a-a', Int(), 2), Value('a1', Int(), 3), Assign('Top', Seq((Field('x', Int(V('a'), V('a1'))), Field('y', Int(), False, V('a-a'))), None))]
    yield [Assign('A', Int(0, 1)), Assign('A-A', Int(0, 2)), Assign('A1', Int(0, 3)), Assign('Top', Seq((Field('a', Ref('A1')), Field('a-a', Ref('A')), Field('a1', Ref('A-A'))), None))]
    yield [Assign('A', Seq((Field('a', Ref('B')), Field('b', B)), None)), Assign('B', Seq((Field('a', Ref('C')), Field('b', B)), None)), Assign('C', Seq((Field('a', B), Field('b', B)), None))]
    yield [Assign('A', Seq((Field('s', Seq((Field('k', B),), None)),), None)), Assign('B', Seq((Field('s', Seq((Field('k', I3),), None)),), None)), Assign('C', Choice((('s', Seq((Field('k', B),), ())),), None)), Assign('S', Seq((Field('k', B),), None))]
    yield [Assign('A', Seq((Field('e', e), Field('f', x)), None)), Assign('B', Seq((Field('e', x), Field('f', e)), None)), Assign('E', e), Assign('F', x)]


def variants():
    """families of schemas that have the same names and differ in one respect: family -> list of texts"""
    ts = leaf_types() + seqof_types() + con_types()
    out = {'bare': [text([Assign('Top', t)]) for t in ts],
           'field': [text([Assign('Top', Seq((Field('a', t), Field('b', Ref('Sub'))), None)), Assign('Sub', Choice((('a', t), ('b', B)), ()))]) for t in ts]}
    es = []
    for i, (items, t) in enumerate(mixed_enums()):
        if len(t.root) == 2 and i % 3 == 0:
            es.append('Mod DEFINITIONS ::= BEGIN\nTop ::= ENUMERATED { %s }\nS ::= SEQUENCE { e ENUMERATED { %s } DEFAULT r1, f Top DEFAULT r0 }\nEND\n' % (items, items))
    out['enum'] = es
    flags = []
    for f in (Field('a', I3), Field('a', I3, True), Field('a', I3, False, 2), Field('a', I3, False, 3), Field('a', IU, False, 2), Field('a', Ref('Sub')), Field('a', Ref('Sub'), True), Field('a', Ref('Sub'), False, 2), Field('a', Int(), False, V('n'))):
        for x in (None, (), (Field('b', B),), (Group(Field('b', B)),), (Field('b', B), Field('c', B)), (Field('b', B), Group(Field('c', B))), (Group(Field('b', B)), Group(Field('c', B))), (Group(Field('b', B), Field('c', B)),)):
            flags.append(text([Assign('Top', Seq((f,), x)), Assign('Sub', Int(0, 5)), Value('n', Int(), 4)]))
    out['shape'] = flags
    vals = []
    for n in (Value('n', Int(), 3), Value('n', Int(), 4), Value('n', Ref('Num'), 3), Value('n', Ref('Num'), 4), Value('n', Int(), V('m')), Value('n', Ref('Num'), V('m'))):
        for num in (Int(), Int(0, 9), Int(0, 9, True)):
            for m in (3, 5):
                vals.append(text([n, Value('m', Int(), m), Assign('Num', num), Assign('Top', Seq((Field('a', Int(0, V('n'))), Field('b', Ref('Num'), False, V('n'))), ())), Assign('L', SeqOf(Octs(V('n'), V('n')), 0, V('m')))]))
    out['value'] = vals
    refs = []
    for perm in itertools.permutations(('A', 'Bb', 'C')):
        for tt in (Int(0, 9), Seq((Field('k', B),), None), Choice((('k', B),), None), SeqOf(B), Enum((('k', 0),), None)):
            refs.append(text([Assign(perm[0], tt), Assign(perm[1], Ref(perm[0])), Assign(perm[2], Seq((Field('a', Ref(perm[1])), Field('b', Ref(perm[0]), True)), None))]))
    out['ref'] = refs
    return {k: list(dict.fromkeys(v)) for k, v in out.items()}
