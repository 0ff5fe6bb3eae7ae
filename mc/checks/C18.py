"""Parser: a schema is read as it is written, or it is refused."""
import itertools
from .. import codec as K, lib as L, reader as RD, schema as S, schemas as F, domains as D
from ..schema import *       # noqa
from ..model import *        # noqa
from . import C13, C16
PROPERTY = 'C18'
RULE = ('an independent reader of X.680 decides for every string of lexical items whether it is a well-formed schema and which types it declares; every single edit (delete one or two items, exchange, '
        'repeat, insert, substitute by every item of the vocabulary) of every base schema, and every string of items up to the length bound in every context, is given to the real parser, and so is every single edit of a character (delete, repeat, exchange, change case, insert, substitute) of these texts, which a reference lexer takes apart: a well-formed text has to '
        'give a module that declares exactly those types, a text that is not well-formed has to raise (in parse_asn1_schema, or when the generated module is loaded)')
ASSUMPTIONS = ['not judged (counted as undecided): X.680 notation outside of the README table (set operators, open endpoints, tags, named numbers, other types ...), text behind the first END, rules beyond syntax '
               '(equal names, values outside of their type, empty ranges), reserved words as names',
               'lexical items are separated by blanks, except in the character edits (C16 varies the separation)',
               'not judged: comments, items that run together with a number, white space inside of strings, non-breaking hyphens and spaces']
VOC = [',', '(', ')', '{', '}', '...', '[[', ']]', '..', '::=', 'OPTIONAL', 'DEFAULT', 'OF', 'SIZE', 'BOOLEAN', 'INTEGER', 'SEQUENCE', 'CHOICE', 'ENUMERATED', 'BIT', 'STRING', 'OCTET', 'END', 'BEGIN',
       'TRUE', 'MIN', 'MAX', 'q', 'Q', 'a', 'A', '5', '-1', "'101'B", "'A5'H", '|', '<', 'EXCEPT', 'DEFINITIONS', 'AUTOMATIC', 'TAGS']
WRONG = ['a_b', '5a', '--5', '+5', "'12'B", "'XY'H", "'1", "'1'", '"s"', '@', ';', ':', '::', '=', '!', '[', ']', '.', '....', 'boolean', 'Boolean', 'end']     # no items, or none of the notation
HEAD = ['Mod', 'DEFINITIONS', 'AUTOMATIC', 'TAGS', '::=', 'BEGIN']
FIELD, ALT, ITEM = object(), object(), object()       # a fresh component / alternative / item per position


def bases():
    out = list(C16.small())
    R = Ref
    out.append(('nested', [Assign('T', Seq((Field('a', Seq((Field('x', D.B, True),), ()), True), Field('b', Choice((('y', D.B), ('z', Int(0, 7))), ())), Field('c', SeqOf(Enum((('p', 0), ('r', 1)), ())))), None))]))
    out.append(('groups', [Assign('T', Seq((), (Group(Field('a', D.B), Field('b', Octs(1, 2), True)), Group(Field('c', Int(None, None), False, 3))))), Assign('U', Choice((('a', R('T')),), (Group(('b', D.B)), Group(('c', D.B), ('d', D.B)))))]))
    out.append(('refs', [Assign('X', R('Y')), Assign('Y', R('Z')), Assign('Z', Int(V('lo'), V('hi'), True)), Value('lo', Int(None, None), -2), Value('hi', Int(None, None), V('top')), Value('top', Int(None, None), 9),
                         Assign('D', Seq((Field('x', R('X'), False, V('lo')), Field('y', R('L'), True)), None)), Assign('L', SeqOf(R('X'), 0, V('top')))]))
    return out


def contexts(tier):
    """name, schema before, alphabet, behind, greatest length"""
    n = 1 if tier == 'thorough' else 0
    v = ['v', 'INTEGER', '::=', '3']
    return [
        ('module', [], ['Mod', 'DEFINITIONS', '::=', 'BEGIN', 'END', 'AUTOMATIC', 'TAGS'], [], 5 + n),
        ('assign', HEAD, ['A', 'a', '::=', 'INTEGER', 'BOOLEAN', '5', 'TRUE', 'B'], ['END'], 4 + n),
        ('type', HEAD + ['A', '::='], ['BIT', 'OCTET', 'STRING', 'SEQUENCE', 'OF', 'INTEGER', 'B', '{', '}'], ['B', '::=', 'BOOLEAN', 'END'], 4 + n),
        ('range', HEAD + v + ['A', '::=', 'INTEGER', '('], ['0', '9', '..', ',', '...', 'MIN', 'MAX', 'v', '(', ')'], [')', 'END'], 4 + n),
        ('size', HEAD + v + ['A', '::=', 'OCTET', 'STRING', '(', 'SIZE', '('], ['0', '9', '..', ',', '...', 'MAX', 'v', ')'], [')', ')', 'END'], 4 + n),
        ('behind', HEAD + v + ['A', '::=', 'SEQUENCE', '(', 'SIZE', '(', '1', '..', '4', ')'], [',', '...', '5', '..', 'SIZE', '(', ')'], [')', 'OF', 'BOOLEAN', 'END'], 4 + n),
        ('parens', HEAD + ['A', '::=', 'BIT', 'STRING'], ['(', ')', 'SIZE', '1', '..', ',', '...'], ['END'], 6 + n),
        ('seq', HEAD + ['A', '::=', 'SEQUENCE', '{'], [FIELD, ',', '...', '[[', ']]'], ['}', 'END'], 6 + n),
        ('seqlong', HEAD + ['A', '::=', 'SEQUENCE', '{', 'k', 'BOOLEAN', ',', '...', ','], [FIELD, ',', '...', '[[', ']]'], ['}', 'END'], 6 + n),
        ('comp', HEAD + ['A', '::=', 'SEQUENCE', '{', 'k', 'BOOLEAN'], [FIELD, ',', 'OPTIONAL', 'DEFAULT', 'TRUE', '...'], ['}', 'END'], 5 + n),
        ('choice', HEAD + ['A', '::=', 'CHOICE', '{'], [ALT, ',', '...', '[[', ']]'], ['}', 'END'], 6 + n),
        ('choicelong', HEAD + ['A', '::=', 'CHOICE', '{', 'k', 'BOOLEAN', ',', '...', ','], [ALT, ',', '...', '[[', ']]'], ['}', 'END'], 6 + n),
        ('enum', HEAD + ['A', '::=', 'ENUMERATED', '{'], [ITEM, ',', '...', '(', ')', '3', '-1'], ['}', 'END'], 5 + n),
        ('enumlong', HEAD + ['A', '::=', 'ENUMERATED', '{', 'k', ',', '...'], [ITEM, ',', '...', '(', ')', '3', '1'], ['}', 'END'], 5 + n),
        ('default', HEAD + v + ['E', '::=', 'ENUMERATED', '{', 'k', ',', '...', ',', 'l', '}', 'A', '::=', 'SEQUENCE', '{', 'a'], ['INTEGER', 'E', 'BIT', 'STRING', 'DEFAULT', 'l', 'v', '3', "'1'B", 'u'], ['}', 'END'], 4 + n),
    ]


def BOUNDS(tier):
    return '%d base schemas x every single edit over %d items; %d texts x every single character edit over %d characters (quick: %d for most); %s' % (len(bases()), len(VOC), len(char_texts(tier)), len(CHARS), len(FEW), ', '.join('%s: %d items, length %d' % (c[0], len(c[2]), c[4]) for c in contexts(tier)))


def items(tier):
    out = []
    for name, sc in bases():
        for form in range(2 if tier == 'quick' else 6):
            toks = C16.flat(sc, form)
            if form and (toks == C16.flat(sc, 0) or tier == 'quick' and name not in ('enum', 'simple')):
                continue
            for part in range(4):
                out.append(('edit.%s.%d.%d' % (name, form, part), ('edit', name, form, part, 4, tier)))
            if tier == 'thorough' and form == 0:
                for part in range(16):
                    out.append(('two.%s.%d' % (name, part), ('two', name, part, 16)))
    for c in contexts(tier):
        parts = 16 if tier == 'thorough' else 8
        for part in range(parts):
            out.append(('str.%s.%d' % (c[0], part), ('str', c[0], part, parts, tier)))
    for name, txt in char_texts(tier):
        for part in range(6):
            out.append(('char.%s.%d' % (name, part), ('char', name, part, 6, tier)))
    out.append(('reader', ('reader',)))
    return out


def edits(t, part, parts):
    n = len(t)
    for i in range(part, n, parts):
        yield t[:i] + t[i + 1:]
        yield t[:i] + t[i + 2:]
        yield t[:i] + t[i + 3:]
        if i + 1 < n:
            yield t[:i] + [t[i + 1], t[i]] + t[i + 2:]
        yield t[:i + 1] + [t[i]] + t[i + 1:]
        yield t[:i + 2] + t[i:i + 2] + t[i + 2:]
        for v in VOC:
            yield t[:i] + [v] + t[i:]
            yield t[:i] + [v] + t[i + 1:]
        for v in WRONG:
            yield t[:i] + [v] + t[i + 1:]
    if part == 0:
        for v in VOC:
            yield t + [v]


CHARS = 'aAbBHz0159_-.,(){}[]\'":=@*/+~#$?\\ \n\xe9\u0661'


FEW = 'aA0_-.,(\''


def chars(txt, part, parts, alpha=CHARS):
    """every single-character edit"""
    for i in range(part, len(txt) + 1, parts):
        yield txt[:i] + txt[i + 1:]
        yield txt[:i] + txt[i:i + 2][::-1] + txt[i + 2:]
        yield txt[:i] + txt[i:i + 1].swapcase() + txt[i + 1:]
        yield txt[:i] + txt[i:i + 1] + txt[i:]
        for c in alpha:
            yield txt[:i] + c + txt[i:]
            yield txt[:i] + c + txt[i + 1:]


def char_texts(tier):
    out = []
    for name, sc in bases():
        out.append((name, ' '.join(C16.flat(sc, 0))))
        if tier == 'thorough':
            toks = C16.flat(sc, 1)
            out.append((name + '.tight', C16.build(toks, [''] + ['' if C16.glue(a, b) else ' ' for a, b in zip(toks, toks[1:])] + [''])))
    h = ' '.join(HEAD)
    out.append(('strings', h + " A ::= SEQUENCE { a OCTET STRING DEFAULT 'A5'H , b BIT STRING DEFAULT '101'B , c BIT STRING DEFAULT ''B , d OCTET STRING DEFAULT ''H } END"))
    out.append(('numbers', h + " A ::= INTEGER ( -12 .. 345 , ... ) v INTEGER ::= -60 w A ::= 7 B ::= ENUMERATED { x ( -1 ) , y ( 20 ) } END"))
    out.append(('tight', h + " A::=SEQUENCE(SIZE(0..9))OF B B::=CHOICE{a-b BOOLEAN,...,[[c1 BIT STRING(SIZE(1..v)),d NoSuch-Type]]}v INTEGER::=4 NoSuch-Type::=OCTET STRING(SIZE(2))END"))
    return out


def judge(toks, ctx):
    if isinstance(toks, str):
        txt = toks
        verdict = RD.read_text(txt)
        ctx.transitions += len(txt)
    else:
        txt = ' '.join(toks)
        verdict = RD.read(toks)
        ctx.transitions += len(toks)
    ctx.state(txt)
    if verdict[0] == 'unsure':
        ctx.count('undecided')
        return
    ctx.traces += 1
    if verdict[0] == 'ok':
        ctx.count('wellformed')
        r = C13.judge(verdict[1], txt)
        ctx.outcome(txt)
    else:
        ctx.count('illformed')
        r = None
        try:
            code = L.parse_asn1_schema(txt)
        except Exception as e:
            ctx.outcome('parse ' + type(e).__name__)
        else:
            try:
                S.load(code)
                r = 'accepted, although it is not well-formed (%s)' % verdict[1]
            except Exception as e:
                ctx.outcome('load ' + type(e).__name__)
    if r:
        ctx.fail('read|' + txt, '%s: %s' % (r, txt), schema=txt, verdict=repr(verdict)[:400])
    elif ctx.sample is None and verdict[0] == 'bad':
        ctx.sample = {'schema': txt, 'refused because': verdict[1]}


def meaning(schema):
    ts, vs = S.resolve(schema)
    return {n: S.canon(t) for n, t in ts.items()}, {n: (S.canon(t), v) for n, (t, v) in vs.items()}


def fresh(toks):
    out = []
    for i, t in enumerate(toks):
        if t is FIELD or t is ALT:
            out += ['f%d' % i, 'BOOLEAN']
        elif t is ITEM:
            out.append('i%d' % i)
        else:
            out.append(t)
    return out


def run(p, ctx):
    kind = p[0]
    if kind == 'edit':
        toks = C16.flat(dict(bases())[p[1]], p[2])
        seen = set()
        for t in edits(toks, p[3], p[4]):
            k = tuple(t)
            if k not in seen:
                seen.add(k)
                judge(t, ctx)
            if ctx.cut():
                return
    elif kind == 'char':
        seen = set()
        for t in chars(dict(char_texts(p[4]))[p[1]], p[2], p[3], CHARS if p[4] == 'thorough' or p[1] in ('strings', 'numbers', 'tight', 'simple') else FEW):
            if t not in seen:
                seen.add(t)
                judge(t, ctx)
            if ctx.cut():
                return
    elif kind == 'two':
        toks = C16.flat(dict(bases())[p[1]], 0)
        n = len(toks)
        seen = set()
        few = [',', '}', '...', ']]', 'OPTIONAL', 'q', '5']
        small = lambda t, i: [t[:i] + t[i + 1:]] + [t[:i] + [v] + t[i:] for v in few] + [t[:i] + [v] + t[i + 1:] for v in few]
        for i in range(p[2], n, p[3]):
            for t in small(toks, i):
                for j in range(i + 1, min(len(t), i + 13)):
                    for u in small(t, j):
                        k = tuple(u)
                        if k not in seen:
                            seen.add(k)
                            judge(u, ctx)
                if ctx.cut():
                    return
            ctx.flush_states()
    elif kind == 'str':
        name, before, alpha, behind, most = [c for c in contexts(p[4]) if c[0] == p[1]][0]
        k = 0
        for n in range(most + 1):
            for s in itertools.product(alpha, repeat=n):
                k += 1
                if k % p[3] == p[2]:
                    judge(fresh(before + list(s) + behind), ctx)
            if ctx.cut():
                return
    elif kind == 'reader':
        for sc in reader_cases():
            for form in range(6):
                toks = C16.flat(sc, form)
                ctx.state(' '.join(toks))
                ctx.transitions += 1
                r = RD.read(toks)
                if r[0] != 'ok' or meaning(r[1]) != meaning(sc):
                    raise AssertionError('the reader and the printer of the model disagree: %r for %s' % (r, ' '.join(toks)))
                for txt in (' '.join(toks), C16.build(toks, [''] + ['' if C16.glue(a, b) else ' ' for a, b in zip(toks, toks[1:])] + [''])):
                    if RD.lex(txt)[0] != toks:
                        raise AssertionError('the lexer of the model reads %s as %r' % (txt, RD.lex(txt)))
                ctx.count('reader_confirmed')


def reader_cases():
    for t in F.leaf_types()[::3] + F.seqof_types()[::3] + F.con_types():
        yield from F.placements(t)
    for t in D.NESTED('quick')[1][::5]:
        yield [Assign('Top', t)]
    for s in F.shapes('quick')[::10]:
        yield [Assign('Top', D.shape_type(s))]
    for name, sc in bases():
        yield sc
