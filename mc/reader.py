"""Reference reader for ASN.1 text: from the lexical items of a module to a schema term, written from X.680 and independent of the library's grammar.

  read(tokens) -> ('ok', schema)      well-formed, in the supported notation, and every name is defined
                  ('bad', why)        no derivation in X.680, or a name that nothing defines
                  ('unsure', why)     notation outside of the supported one, or a rule of X.680 beyond syntax (duplicate names, empty ranges, values outside their type ...): not judged
"""
import re
from . import model as M
from .schema import Assign, Value, Ref, V
from .model import *        # noqa

RESERVED = frozenset('''ABSENT ABSTRACT-SYNTAX ALL APPLICATION AUTOMATIC BEGIN BIT BMPString BOOLEAN BY CHARACTER CHOICE CLASS COMPONENT COMPONENTS CONSTRAINED CONTAINING DATE DATE-TIME DEFAULT
DEFINITIONS DURATION EMBEDDED ENCODED ENCODING-CONTROL END ENUMERATED EXCEPT EXPLICIT EXPORTS EXTENSIBILITY EXTERNAL FALSE FROM GeneralizedTime GeneralString GraphicString IA5String IDENTIFIER
IMPLICIT IMPLIED IMPORTS INCLUDES INSTANCE INSTRUCTIONS INTEGER INTERSECTION ISO646String MAX MIN MINUS-INFINITY NOT-A-NUMBER NULL NumericString OBJECT ObjectDescriptor OCTET OF OID-IRI OPTIONAL
PATTERN PDV PLUS-INFINITY PRESENT PrintableString PRIVATE REAL RELATIVE-OID RELATIVE-OID-IRI SEQUENCE SET SETTINGS SIZE STRING SYNTAX T61String TAGS TeletexString TIME TIME-OF-DAY TRUE
TYPE-IDENTIFIER UNION UNIQUE UNIVERSAL UniversalString UTCTime UTF8String VideotexString VisibleString WITH'''.split())
NUM = re.compile(r'-?(0|[1-9][0-9]*)$')
LOW = re.compile(r'[a-z][A-Za-z0-9]*(-[A-Za-z0-9]+)*$')
UP = re.compile(r'[A-Z][A-Za-z0-9]*(-[A-Za-z0-9]+)*$')
BSTR = re.compile(r"'([01]*)'B$")
HSTR = re.compile(r"'([0-9A-F]*)'H$")
CSTR = re.compile('"[^"]*"$')
OTHER = {'NULL', 'REAL', 'DATE', 'IA5String', 'UTF8String', 'VisibleString', 'NumericString', 'SET', '[', 'OBJECT', 'EXTERNAL', 'CHARACTER', 'EMBEDDED', 'INSTANCE', 'TIME', 'DURATION',
         'PrintableString', 'GeneralizedTime', 'UTCTime', 'BMPString', 'GeneralString', 'GraphicString', 'UniversalString', 'TeletexString', 'T61String', 'VideotexString', 'ISO646String', 'RELATIVE-OID'}
# a sign apart from its number, real numbers, leading zeros, names that end in a hyphen
LEX = re.compile(r'-$|-?[0-9]+\.[0-9]+$|-?0[0-9]+$|[A-Za-z].*-$')


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


class Reader:
    def __init__(self, toks):
        self.t = list(toks)
        self.i = 0
        self.doubts = []

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, want=None):
        x = self.peek()
        if x is None or want is not None and x != want:
            raise Bad('%r instead of %r at item %d' % (x, want, self.i))
        self.i += 1
        return x

    def eat(self, want):
        if self.peek() == want:
            self.i += 1
            return True
        return False

    def doubt(self, why):
        self.doubts.append(why)

    def low(self):
        x = self.take()
        if not LOW.match(x):
            raise Bad('%r is no identifier' % x)
        return x

    # -------------------------------------------------------------- module
    def module(self):
        name = self.take()
        if not UP.match(name):
            raise Bad('module name')
        if name in RESERVED:
            self.doubt('reserved word as name')
        if self.peek() == '{':
            raise Unsure('object identifier')
        self.take('DEFINITIONS')
        if self.eat('AUTOMATIC'):
            self.take('TAGS')
        elif self.peek() in ('EXPLICIT', 'IMPLICIT') and self.peek(1) == 'TAGS':
            raise Unsure('other tagging')
        if self.peek() == 'EXTENSIBILITY':
            raise Unsure('EXTENSIBILITY IMPLIED')
        self.take('::=')
        self.take('BEGIN')
        if self.peek() in ('EXPORTS', 'IMPORTS'):
            raise Unsure('EXPORTS / IMPORTS')
        out = []
        while self.peek() != 'END':
            out.append(self.assignment())
        self.take('END')
        if self.peek() is not None:
            self.doubt('text after END')
        return out

    def assignment(self):
        n = self.take()
        if UP.match(n):
            if n in RESERVED:
                self.doubt('reserved word as name')
            if self.peek() == '{':
                raise Unsure('parameterized assignment')
            if self.peek() is not None and UP.match(self.peek()) and self.peek() not in RESERVED and self.peek(1) == '::=' and self.peek(2) == '{':
                raise Unsure('value set')
            self.take('::=')
            return Assign(n, self.type())
        if LOW.match(n):
            t = self.type()
            self.take('::=')
            return Value(n, t, self.value())
        raise Bad('%r starts no assignment' % n)

    # -------------------------------------------------------------- types
    def type(self):
        x = self.take()
        if x == 'BOOLEAN':
            t = Bool()
        elif x == 'INTEGER':
            if self.peek() == '{':
                raise Unsure('named numbers')
            t = Int(None, None, False)
            if self.peek() == '(':
                t = Int(*self.constraint(False))
        elif x in ('BIT', 'OCTET'):
            self.take('STRING')
            if x == 'BIT' and self.peek() == '{':
                raise Unsure('named bits')
            c = self.constraint(True) if self.peek() == '(' else (None, None, False)
            t = (Bits if x == 'BIT' else Octs)(*c)
        elif x == 'ENUMERATED':
            t = self.enum()
        elif x == 'CHOICE':
            t = self.choice()
        elif x == 'SEQUENCE':
            if self.peek() == '{':
                t = self.sequence()
            elif self.peek() == 'SIZE':
                raise Unsure('SIZE without parentheses')
            else:
                c = self.constraint(True) if self.peek() == '(' else (None, None, False)
                self.take('OF')
                if self.peek() is not None and LOW.match(self.peek()):
                    raise Unsure('named element')
                return SeqOf(self.type(), *c)
        elif x in OTHER:
            raise Unsure('type %s' % x)
        elif UP.match(x):
            if self.peek() == '.':
                raise Unsure('external reference')
            if self.peek() == '{':
                raise Unsure('parameterized type')
            if x in RESERVED:
                self.doubt('reserved word as type') if x in self.defined() else self.undefined(x)
            t = Ref(x)
        elif LOW.match(x) and self.peek() == '<':
            raise Unsure('selection type')
        else:
            raise Bad('%r starts no type' % x)
        while self.peek() == '(':
            self.doubt('constraint on this type, or a second one')
            self.skip_constraint()
        return t

    def defined(self):
        return {a for a, b in zip(self.t, self.t[1:]) if b == '::='}

    def undefined(self, x):
        self.missing = getattr(self, 'missing', []) + [x]

    def skip_constraint(self):
        self.take('(')
        if self.peek() in ('WITH', 'FROM', 'CONTAINING', 'PATTERN', 'CONSTRAINED', 'ENCODED', 'INCLUDES', 'SETTINGS'):
            raise Unsure('constraint')
        self.sets()
        self.take(')')

    def sets(self):
        self.elements_of_set()
        if self.eat(','):
            self.take('...')
            if self.eat(','):
                self.elements_of_set()
        if self.peek() == '!':
            raise Unsure('exception')

    def elements_of_set(self):
        """ElementSetSpec of X.680 50.1"""
        if self.eat('ALL'):
            self.take('EXCEPT')
            self.elements()
            return
        while True:
            while True:
                self.elements()
                if self.eat('EXCEPT'):
                    self.elements()
                if self.peek() not in ('^', 'INTERSECTION'):
                    break
                self.take()
            if self.peek() not in ('|', 'UNION'):
                break
            self.take()

    def elements(self):
        x = self.peek()
        if x == '(':
            self.take()
            self.elements_of_set()
            self.take(')')
        elif x == 'SIZE' or x == 'FROM':
            self.take()
            self.skip_constraint()
        elif x in ('PATTERN', 'WITH', 'INCLUDES', 'SETTINGS', 'CONTAINING'):
            raise Unsure('constraint')
        elif x is not None and (x == 'MIN' or self.is_value(x)):
            self.take()
            if x == 'MIN' or self.peek() in ('..', '<'):
                self.eat('<')
                self.take('..')
                self.eat('<')
                y = self.take()
                if y != 'MAX' and not self.is_value(y):
                    raise Bad('%r ends no range' % y)
        elif x is not None and UP.match(x) and x not in RESERVED | {'MAX'}:
            raise Unsure('contained subtype')
        else:
            raise Bad('%r in a constraint' % x)

    def is_value(self, x):
        return bool(NUM.match(x) or LOW.match(x) or BSTR.match(x) or HSTR.match(x) or CSTR.match(x) or x in ('TRUE', 'FALSE', 'NULL'))

    def constraint(self, size):
        """one parenthesis with a value, a range or a size; everything else of X.680 is left undecided, the rest is wrong"""
        i = self.i
        self.skip_constraint()
        end = self.i
        inner = self.t[i + 1:end - 1]
        r = self.size_of(inner) if size else self.range_of(inner)
        if r is None:
            self.doubt('constraint (%s)' % ' '.join(inner))
            return (0, 0, False)
        return r

    def additions(self, c):
        if not all(NUM.match(x) or x in (',', '...', '..', 'MAX', 'SIZE', '(', ')', '|') for x in c):
            self.doubt('additions of a constraint')

    def number_or_name(self, x):
        return int(x) if NUM.match(x) else V(x) if LOW.match(x) else None

    def range_of(self, c):
        ext = False
        if ',' in c:
            k = c.index(',')
            self.additions(c[k:])
            ext, c = True, c[:k]
        if len(c) == 1:
            v = self.number_or_name(c[0])
            return None if v is None else (v, v, ext)
        if len(c) == 3 and c[1] == '..':
            lo = None if c[0] == 'MIN' else self.number_or_name(c[0])
            up = None if c[2] == 'MAX' else self.number_or_name(c[2])
            if lo is None and c[0] != 'MIN' or up is None and c[2] != 'MAX':
                return None
            return lo, up, ext
        return None

    def size_of(self, c):
        if len(c) < 4 or c[:2] != ['SIZE', '(']:
            return None
        k = c.index(')')
        r = self.range_of(c[2:k])
        if r is None:
            return None
        if len(c) > k + 1:
            if c[k + 1] != ',':
                return None
            if r[2]:
                return None
            self.additions(c[k + 1:])
            r = r[:2] + (True,)
        if r[0] is None:
            r = (0,) + r[1:]
        return r

    # -------------------------------------------------------------- constructed types
    def component(self):
        n = self.low()
        t = self.type()
        if self.eat('OPTIONAL'):
            return Field(n, t, True)
        if self.eat('DEFAULT'):
            return Field(n, t, False, self.value())
        return Field(n, t)

    def alternative(self):
        n = self.low()
        return (n, self.type())

    def group(self, item):
        self.take('[[')
        if self.peek(1) == ':':
            raise Unsure('version number')
        out = [item()]
        while self.eat(','):
            out.append(item())
        self.take(']]')
        return Group(*out)

    def list(self, item):
        """comma separated: '...' | group | item"""
        out = []
        while True:
            if self.eat('...'):
                if self.peek() == '!':
                    raise Unsure('exception')
                out.append('...')
            elif self.peek() == '[[':
                out.append(self.group(item))
            elif self.peek() == 'COMPONENTS' and self.peek(1) == 'OF':
                raise Unsure('COMPONENTS OF')
            else:
                out.append(item())
            if not self.eat(','):
                return out

    def sequence(self):
        self.take('{')
        if self.eat('}'):
            return Seq((), None)
        l = self.list(self.component)
        self.take('}')
        marks = [i for i, x in enumerate(l) if x == '...']
        if len(marks) > 2:
            raise Bad('three extension markers')
        a = marks[0] if marks else len(l)
        b = marks[1] if len(marks) == 2 else len(l)
        root, ext, root2 = l[:a], l[a + 1:b], l[b + 1:]
        if any(isinstance(x, Group) for x in root + root2):
            raise Bad('group outside of the extension additions')
        if root2 and not ext and not root:
            self.doubt('markers only, then components')
        first = [i for i, x in enumerate(ext) if isinstance(x, Group)]
        if first and any(not isinstance(x, Group) for x in ext[first[0]:]):
            self.doubt('addition behind a group')
        return Seq(tuple(root + root2), tuple(ext) if marks else None)

    def choice(self):
        self.take('{')
        l = self.list(self.alternative)
        self.take('}')
        marks = [i for i, x in enumerate(l) if x == '...']
        if len(marks) > 2 or marks and marks[0] == 0 or len(marks) == 2 and marks[1] != len(l) - 1:
            raise Bad('extension markers')
        a = marks[0] if marks else len(l)
        b = marks[1] if len(marks) == 2 else len(l)
        root, ext = l[:a], l[a + 1:b]
        if any(isinstance(x, Group) for x in root):
            raise Bad('group outside of the extension additions')
        first = [i for i, x in enumerate(ext) if isinstance(x, Group)]
        if first and any(not isinstance(x, Group) for x in ext[first[0]:]):
            self.doubt('addition behind a group')
        return Choice(tuple(root), tuple(ext) if marks else None)

    def enum(self):
        self.take('{')
        l = self.list(self.item)
        self.take('}')
        marks = [i for i, x in enumerate(l) if x == '...']
        if len(marks) > 1 or marks and marks[0] == 0:
            raise Bad('extension markers')
        if any(isinstance(x, Group) for x in l):
            raise Bad('group of enumeration items')
        a = marks[0] if marks else len(l)
        root, ext = l[:a], l[a + 1:]
        names = [n for n, _ in root + ext]
        used = [x for _, x in root if x is not None]
        good = len(set(names)) == len(names) and len(set(used)) == len(used)
        k, r, x = 0, [], []
        for n, v in root:                       # X.680 20.3: the smallest numbers that no other root item has
            while v is None and k in used:
                k += 1
            if v is None:
                v = k
                used.append(k)
            r.append((n, v))
        last = None
        for n, v in ext:                        # 20.4 - 20.6: increasing; the automatic ones are the next that is free
            if v is None:
                v = 0 if last is None else last + 1
                good = good and v >= 0
                while v in used:
                    v += 1
            elif v in used or last is not None and v <= last:
                good = False
            last = v
            x.append((n, v))
        if not good:
            self.doubt('numbers or names of the enumeration')
        return Enum(tuple(r), tuple(x) if marks else None)

    def item(self):
        n = self.low()
        if not self.eat('('):
            return (n, None)
        x = self.take()
        self.take(')')
        if LOW.match(x):
            self.doubt('number by reference')
            return (n, None)
        if not NUM.match(x):
            raise Bad('%r is no number' % x)
        return (n, int(x))

    def value(self):
        x = self.take()
        if NUM.match(x):
            return ('n', int(x))
        if BSTR.match(x):
            return ('b', BSTR.match(x).group(1))
        if HSTR.match(x):
            return ('h', HSTR.match(x).group(1))
        if x in ('TRUE', 'FALSE'):
            return ('t', x == 'TRUE')
        if LOW.match(x):
            if self.peek() == ':':
                raise Unsure('choice value')
            return ('i', x)
        if x in ('NULL', '{', 'MINUS-INFINITY', 'PLUS-INFINITY', 'NOT-A-NUMBER') or x.startswith('"'):
            raise Unsure('value')
        if UP.match(x) and self.peek() == '.':
            raise Unsure('external value')
        raise Bad('%r is no value' % x)


def read(toks):
    if any(LEX.match(t) for t in toks):
        return ('unsure', 'lexical')
    r = Reader(toks)
    try:
        schema = r.module()
    except Bad as e:
        return ('bad', str(e))
    except Unsure as e:
        return ('unsure', str(e))
    try:
        schema = meaning(schema, r)
    except Bad as e:
        return ('unsure', r.doubts[0]) if r.doubts else ('bad', str(e))
    except Unsure as e:
        return ('unsure', str(e))
    return ('unsure', r.doubts[0]) if r.doubts else ('ok', schema)


def meaning(schema, r):
    types, values = {}, {}
    for a in schema:
        d = types if isinstance(a, Assign) else values
        if a.name in d:
            raise Unsure('two assignments of one name')
        d[a.name] = a
    names = set()

    def collect(t):
        k = t[0]
        if k == 'Ref':
            if t.name not in types:
                raise Bad('type %s is not defined' % t.name)
        elif k in ('Int', 'Bits', 'Octs', 'SeqOf'):
            for b in (t.lb, t.ub):
                if isinstance(b, V):
                    refs.append(b.name)
            if k == 'SeqOf':
                collect(t.elem)
        elif k == 'Seq':
            fs = M.fields(t)
            if len({f.name for f in fs}) != len(fs):
                r.doubt('component name twice')
            for f in fs:
                names.add(f.name)
                collect(f.type)
        elif k == 'Choice':
            al = M.alternatives(t)
            if len({n for n, _ in al}) != len(al):
                r.doubt('alternative name twice')
            for n, ty in al:
                names.add(n)
                collect(ty)
    refs = []
    if getattr(r, 'missing', None):
        raise Bad('type %s is not defined' % r.missing[0])
    for a in schema:
        collect(a.type)
    for n in refs:
        if n not in values:
            if n in names:
                raise Unsure('undefined value, but there is a component of that name')
            raise Bad('value %s is not defined' % n)
    # no cycles
    seen = {}

    def walk(key):
        if seen.get(key) == 1:
            raise Unsure('cycle')
        if seen.get(key) == 2:
            return
        seen[key] = 1
        a = (types if key[0] == 'A' else values)[key[1]]
        deps(a.type)
        if key[0] == 'W' and a.value[0] == 'i' and a.value[1] in values:
            walk(('W', a.value[1]))
        seen[key] = 2

    def deps(t):
        k = t[0]
        if k == 'Ref':
            walk(('A', t.name))
        elif k in ('Int', 'Bits', 'Octs', 'SeqOf'):
            for b in (t.lb, t.ub):
                if isinstance(b, V):
                    walk(('W', b.name))
            if k == 'SeqOf':
                deps(t.elem)
        elif k == 'Seq':
            for f in M.fields(t):
                deps(f.type)
                if f.has_default and f.default[0] == 'i' and f.default[1] in values:
                    walk(('W', f.default[1]))
        elif k == 'Choice':
            for _, ty in M.alternatives(t):
                deps(ty)
    for a in schema:
        walk(a[:2])
    if names & set(values):
        raise Unsure('a component has the name of a value')

    def base(t):
        while t[0] == 'Ref':
            t = types[t.name].type
        return t

    def conv(t, v):
        """value notation -> abstract value of the type; the rest is left undecided"""
        t = base(t)
        k, x = v
        if k == 'i':
            if t[0] == 'Enum':
                if x in dict(t.root) or x in dict(t.ext or ()):
                    if x in values:
                        raise Unsure('item or value')
                    return x
            if x in values:
                if base(values[x].type)[0] != t[0] or t[0] == 'Enum':
                    raise Unsure('value of another type')
                return V(x)
            if x in names:
                raise Unsure('undefined value, but there is a component of that name')
            raise Bad('value %s is not defined' % x)
        if t[0] == 'Int' and k == 'n':
            return x
        if t[0] == 'Bool' and k == 't':
            return x
        if t[0] == 'Bits' and k == 'b':
            return x
        if t[0] == 'Bits' and k == 'h':
            return ''.join(format(int(c, 16), '04b') for c in x)
        if t[0] == 'Octs' and k == 'h' and len(x) % 2 == 0:
            return bytes.fromhex(x)
        if t[0] == 'Octs' and k == 'b' and len(x) % 8 == 0:
            return bytes(int(x[i:i + 8], 2) for i in range(0, len(x), 8))
        raise Unsure('value of another type')

    def tmap(t):
        k = t[0]
        if k == 'SeqOf':
            return SeqOf(tmap(t.elem), t.lb, t.ub, t.ext)
        if k == 'Seq':
            return Seq(tuple(fmap(f) for f in t.root), None if t.ext is None else tuple(Group(*[fmap(f) for f in e]) if isinstance(e, Group) else fmap(e) for e in t.ext))
        if k == 'Choice':
            am = lambda p: (p[0], tmap(p[1]))
            return Choice(tuple(am(p) for p in t.root), None if t.ext is None else tuple(Group(*[am(p) for p in e]) if isinstance(e, Group) else am(e) for e in t.ext))
        return t

    def fmap(f):
        return Field(f.name, tmap(f.type), f.opt, conv(f.type, f.default)) if f.has_default else Field(f.name, tmap(f.type), f.opt)
    out = []
    for a in schema:
        if isinstance(a, Assign):
            out.append(Assign(a.name, tmap(a.type)))
        else:
            out.append(Value(a.name, tmap(a.type), conv(a.type, a.value)))
    check_values(out, r)
    return out


def check_values(schema, r):
    from . import schema as S
    for a in schema:
        if isinstance(a, Value) and a.type[0] not in ('Bool', 'Int', 'Bits', 'Octs', 'Ref'):
            r.doubt('value of a constructed type')
    try:
        ts, vs = S.resolve(schema)
    except RecursionError:
        raise Unsure('cycle')

    def ok(t):
        k = t[0]
        if k in ('Int', 'Bits', 'Octs', 'SeqOf'):
            for b in (t.lb, t.ub):
                if b is not None and (not isinstance(b, int) or isinstance(b, bool)):
                    raise Unsure('bound of another type')
                if k != 'Int' and b is not None and b < 0:
                    raise Unsure('negative size')
            if t.lb is not None and t.ub is not None and t.lb > t.ub:
                raise Unsure('empty range')
            if k == 'SeqOf':
                ok(t.elem)
        elif k == 'Seq':
            for f in M.fields(t):
                ok(f.type)
                if f.has_default:
                    admits(f.type, f.default)
        elif k == 'Choice':
            for _, x in M.alternatives(t):
                ok(x)

    def admits(t, v):
        try:
            M.encode(t, M.thaw(t, v))
        except Exception:
            raise Unsure('value outside of its type')
    for t in ts.values():
        ok(t)
    for t, v in vs.values():
        ok(t)
        admits(t, v)


# ---------------------------------------------------------------- characters (X.680, 12)
SPACE = ' \t\n\r\x0b\x0c'
_LEX = re.compile(r"""(?P<word>[A-Za-z][A-Za-z0-9]*(?:-[A-Za-z0-9]+)*)|(?P<num>-?[0-9]+)|(?P<bits>'[^']*'[BH])|(?P<text>"[^"]*")|(?P<sym>::=|\.\.\.|\.\.|\[\[|\]\]|[{}(),<>|^!;:=@*/\-\[\]&.])""")


def lex(text):
    """-> (items, doubts); raises Bad for characters that begin no lexical item, Unsure for what is outside of the supported notation"""
    if '--' in text or '/*' in text:
        raise Unsure('comments (C16)')
    out, doubts = [], []
    i, last = 0, None
    while i < len(text):
        if text[i] in SPACE:
            i, last = i + 1, None
            continue
        if text[i] in '\u2011\xa0':
            raise Unsure('non-breaking hyphen or space')
        m = _LEX.match(text, i)
        if not m and 'END' in out:
            raise Unsure('text after END')
        if not m:
            raise Bad('no lexical item starts with %r' % text[i:i + 8])
        kind, item = m.lastgroup, m.group()
        if kind == 'bits' and any(c in SPACE for c in item):
            raise Unsure('white space in a string')
        if kind == 'word' and text[m.end():m.end() + 1] == '-':
            raise Unsure('name that ends in a hyphen')
        if kind == 'num' and text[m.end():m.end() + 1] == '.' and text[m.end():m.end() + 2] != '..':
            raise Unsure('real number')
        if kind in ('word', 'num') and last in ('word', 'num', 'bits') or kind in ('word', 'num', 'bits') and last == 'num':
            doubts.append('items run together')
        out.append(item)
        i, last = m.end(), kind
    return out, doubts


def read_text(text):
    try:
        toks, doubts = lex(text)
    except Bad as e:
        return ('bad', str(e))
    except Unsure as e:
        return ('unsure', str(e))
    r = read(toks)
    if r[0] == 'ok' and doubts:
        return ('unsure', doubts[0])
    return r
