"""Parser: white space, line breaks and comments have no influence on the generated module."""
import re
from .. import domains as D, lib as L, schema as S, schemas as F
from ..schema import *       # noqa
from ..model import *        # noqa
from .C13 import compare
PROPERTY = 'C16'
RULE = ('every schema of the family is cut into its lexical items; every gap between two items (before the first and after the last included) is filled with every separator, the other gaps conventionally; '
        'then all gaps at once with the same separator, every gap empty that may be empty, and (thorough) every pair of gaps: the generated text has to be identical to the one of the '
        'conventional layout, which in turn has to declare exactly what the schema says')
ASSUMPTIONS = ['comments are line comments (-- to the next -- or the end of the line); the supported notation has no /* */ comments and no white space inside of bstring and hstring']
WORD = re.compile(r"[A-Za-z0-9\-]")

BLANK = ['', ' ', '\n', '\t', '\r\n', '   ', '\n\n\n', '\r', '\x0b', '\x0c', ' \t\n ']
COMMENT = ['-- c\n', ' -- c --', '-- c -- ', ' --c--\n', '--\n', ' -- a, b } ]] ) ::= END "\' 5..6 --\n', "-- '1'B it's ... [[ {\r\n", ' -- one -- -- two --\n', '\n-- x - y\n', '-- A ::= BOOLEAN\n',
           '-- first\n  -- second\n', ' -- c -- \t-- d\n', '------------\n', '\n--------- title ---------\n', '-- INTEGER --', '\t--\ttab\t--\t', '--/* x */--', '-- \u00e9\u4e2d\n']


def small():
    R = Ref
    yield 'simple', [Assign('A', D.B), Assign('B-b', Int(-3, 5)), Value('n-n', Int(None, None), -7), Assign('C', Bits(1, 4, True)), Assign('D', Octs(V('m'), V('m'))), Value('m', Int(None, None), 3)]
    yield 'enum', [Assign('E', Enum((('a', 0), ('b-c', 1)), (('d', 2),))), Assign('G', Enum((('a', 3), ('b', -1)), None)), Assign('F', Seq((Field('e', R('E'), False, 'b-c'),), None))]
    yield 'seq', [Assign('S', Seq((Field('a', D.B, True), Field('b', Int(0, 9), False, 5), Field('c', Bits(None, None), False, '101'), Field('d', Octs(0, 2), False, b'\xa5')),
                                  (Field('e', D.B), Group(Field('f', D.B), Field('g', Int(None, None), True)))))]
    yield 'choice', [Assign('C', Choice((('a', D.B), ('b', Seq((Field('x', D.B),), ()))), (('c', Int(0, None)), Group(('d', D.B), ('e', R('L')))))), Assign('L', SeqOf(R('M'), 1, 4)), Assign('M', SeqOf(D.B))]
    yield 'values', [Value('a', Int(None, None), 5), Value('b', D.B, True), Value('c', Bits(None, None), '10'), Value('d', Octs(None, None), b'\x01'), Assign('X', Int(V('a'), 9, True)),
                     Value('e', R('X'), 6)]
    yield 'size', [Assign('A', SeqOf(Octs(1, 3, True), 0, 2, True)), Assign('B', Bits(8, 8))]
    yield 'size2', [Assign('C', Octs(4, None)), Assign('D', SeqOf(SeqOf(Int(1, 1)), 2, 2))]
    yield 'empty', [Assign('A', Seq((), None)), Assign('B', Seq((), ())), Assign('C', Seq((), (Group(Field('a', D.B)),)))]


def BOUNDS(tier):
    n = len(list(small()))
    return '%d schemas x 3 spellings, %d separators in every gap; thorough: also every pair of gaps x %d separators' % (n, len(BLANK) + len(COMMENT), len(PAIR))


PAIR = ['', '\n', '-- c\n', ' -- c --']


def items(tier):
    out = []
    for name, sc in small():
        for form in range(3):
            for part in range(4):
                out.append(('%s.%d.%d' % (name, form, part), ('one', name, form, part, 4)))
            out.append(('all.%s.%d' % (name, form), ('all', name, form)))
            if tier == 'thorough':
                for part in range(8):
                    out.append(('pair.%s.%d.%d' % (name, form, part), ('pair', name, form, part, 8)))
    return out


def flat(sc, form):
    return [t for line in S.tokens(sc, form=form) for t in line]


def glue(a, b):
    """may the two items be written without anything in between?"""
    if a is None or b is None:
        return True
    if WORD.match(a[-1]) and WORD.match(b[0]):
        return False
    if a[-1] == '.' and b[0] == '.':
        return False
    return True


def fits(a, sep, b):
    """comments which follow an item directly (a-- c) are fine, but a hyphen-ended item is not possible; a comment that ends right before an item neither matters"""
    if sep == '' or sep.strip() != '':
        return glue(a, b) if sep == '' else True
    return True


def build(toks, seps):
    out = seps[0]
    for t, s in zip(toks, seps[1:]):
        out += t + s
    return out


def run(p, ctx):
    kind, name, form = p[:3]
    sc = dict(small())[name]
    toks = flat(sc, form)
    n = len(toks)
    base_text = build(toks, [''] + [' '] * (n - 1) + ['\n'])
    try:
        want = L.parse_asn1_schema(base_text)
        r = compare(sc, S.load(want))
    except Exception as e:
        r = '%s: %s' % (type(e).__name__, e)
    if r:
        ctx.fail('base|' + base_text, '%s for %s' % (r, base_text), schema=base_text)
        return

    def check(seps, what):
        txt = build(toks, seps)
        ctx.traces += 1
        ctx.transitions += n
        ctx.state(txt)
        try:
            got = L.parse_asn1_schema(txt)
            r = None if got == want else 'generated module differs'
        except Exception as e:
            r = '%s: %s' % (type(e).__name__, str(e)[:200])
        ctx.outcome(r)
        if r:
            ctx.fail('layout|%r' % txt, '%s, %s: %r' % (r, what, txt), schema=txt)
        elif ctx.sample is None:
            ctx.sample = {'schema': txt}

    def around(i):
        return (toks[i - 1] if i else None), (toks[i] if i < n else None)

    conv = [''] + [' '] * (n - 1) + ['\n']
    tight = ['' if glue(*around(i)) else ' ' for i in range(n + 1)]
    if kind == 'one':
        part, parts = p[3:]
        for i in range(part, n + 1, parts):
            for sep in BLANK + COMMENT:
                if not fits(around(i)[0], sep, around(i)[1]):
                    continue
                for rest in (conv, tight) if sep in BLANK or sep in COMMENT[:3] else (tight,):
                    seps = list(rest)
                    seps[i] = sep
                    check(seps, 'separator %r in front of item %d (%s)' % (sep, i, around(i)[1]))
                if ctx.cut():
                    return
    elif kind == 'all':
        check(tight, 'no white space where none is needed')
        for sep in BLANK + COMMENT:
            if sep:
                check([sep] * (n + 1), 'separator %r everywhere' % sep)
                check([sep if not (t == '') else '' for t in tight], 'separator %r only where needed' % sep)
                check([sep if t == '' else ' ' for t in tight], 'separator %r where not needed' % sep)
    elif kind == 'pair':
        part, parts = p[3:]
        for i in range(part, n + 1, parts):
            for j in range(i + 1, n + 1):
                for a in PAIR:
                    for b in PAIR:
                        if fits(around(i)[0], a, around(i)[1]) and fits(around(j)[0], b, around(j)[1]):
                            seps = list(conv)
                            seps[i], seps[j] = a, b
                            check(seps, 'separators %r and %r' % (a, b))
                if ctx.cut():
                    return
