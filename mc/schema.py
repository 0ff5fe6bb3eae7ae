"""ASN.1 text side of the model: schemas as lists of assignments, a printer to tokens / text, and a reader that turns what the
generated Python module declares back into model type terms.

  schema   = [Assign]                        Assign('Name', type) | Value('name', type, abstract value or V)
  types    = model types + Ref('Name')       bounds may be V('valueName'), DEFAULTs may be V('valueName')
"""
import itertools
from . import model as M
from . import lib as L
from .model import *        # noqa



class Ref(M.T):
    """reference to a type assignment"""
    __slots__ = ()
    _f = ('name',)


class V(tuple):
    """reference to a value assignment"""
    __slots__ = ()

    def __new__(cls, name):
        return tuple.__new__(cls, ('V', name))
    name = property(lambda s: s[1])

    def __reduce__(self):
        return (V, (self[1],))


class Assign(tuple):
    __slots__ = ()

    def __new__(cls, name, type):
        return tuple.__new__(cls, ('A', name, type))
    name = property(lambda s: s[1])
    type = property(lambda s: s[2])

    def __reduce__(self):
        return (Assign, tuple(self[1:]))


class Value(tuple):
    __slots__ = ()

    def __new__(cls, name, type, value):
        return tuple.__new__(cls, ('W', name, type, value))
    name = property(lambda s: s[1])
    type = property(lambda s: s[2])
    value = property(lambda s: s[3])

    def __reduce__(self):
        return (Value, tuple(self[1:]))


# ------------------------------------------------------------------ printing

class Printer:
    """form: selects among the equivalent spellings of one construct (same meaning in X.680)"""

    def __init__(self, env_types=None, form=0):
        self.form = form
        self.env = env_types or {}

    def pick(self, alts):
        return alts[self.form % len(alts)]

    def num(self, x, end):
        if x is None:
            return [end]
        if isinstance(x, V):
            return [x.name]
        return [str(x)]

    def rng(self, lb, ub, ext, size=False):
        """the inside of the parentheses, list of spellings"""
        full = self.num(lb, 'MIN') + ['..'] + self.num(ub, 'MAX')
        one = [full]
        if lb == ub and lb is not None:
            one = [self.num(lb, 'MIN'), full]
        if size and lb == 0 and not isinstance(lb, V):
            one.append(['MIN'] + full[1:])
        if not ext:
            return one
        out = []
        for o in one:
            out.append(o + [',', '...'])
            if not isinstance(ub, V) and ub is not None:
                out.append(o + [',', '...', ',', str(ub + 1), '..', str(ub + 5)])
                out.append(o + [',', '...', ',', str(ub + 3)])
        return out

    def size(self, t):
        if t.lb is None and t.ub is None and not t.ext:
            return []
        alts = [['(', 'SIZE', '('] + r + [')', ')'] for r in self.rng(t.lb, t.ub, t.ext, size=True)]
        if t.ext:
            alts.append(['(', 'SIZE', '('] + self.rng(t.lb, t.ub, False)[0] + [')', ',', '...', ')'])
        return self.pick(alts)

    def type(self, t):
        k = t[0]
        if k == 'Ref':
            return [t.name]
        if k == 'Bool':
            return ['BOOLEAN']
        if k == 'Int':
            if t.lb is None and t.ub is None and not t.ext:
                return ['INTEGER']
            return ['INTEGER', '('] + self.pick(self.rng(t.lb, t.ub, t.ext)) + [')']
        if k == 'Bits':
            return ['BIT', 'STRING'] + self.size(t)
        if k == 'Octs':
            return ['OCTET', 'STRING'] + self.size(t)
        if k == 'Enum':
            return ['ENUMERATED', '{'] + self.enum(t) + ['}']
        if k == 'SeqOf':
            s = self.size(t)
            return (['SEQUENCE'] + s + ['OF'] if s else ['SEQUENCE', 'OF']) + self.type(t.elem)
        if k in ('Seq', 'Choice'):
            item = self.field if k == 'Seq' else (lambda p: [p[0]] + self.type(p[1]))
            parts = [item(f) for f in t.root]
            if t.ext is not None:
                parts.append(['...'])
                for e in t.ext:
                    if isinstance(e, Group):
                        g = []
                        for i, f in enumerate(e):
                            g += ([','] if i else []) + item(f)
                        parts.append(['[['] + g + [']]'])
                    else:
                        parts.append(item(e))
                if self.form % 3 == 2:
                    parts.append(['...'])             # optional closing marker
            out = ['SEQUENCE' if k == 'Seq' else 'CHOICE', '{']
            for i, p in enumerate(parts):
                out += ([','] if i else []) + p
            return out + ['}']
        raise AssertionError(k)

    def enum(self, t):
        """numbers are printed unless they are the automatic ones (X.680 20.3, 20.5); form 1 prints all"""
        out = []
        autos = auto_numbers(t)
        for i, (n, num) in enumerate(t.root):
            out += ([','] if i else []) + self.eitem(n, num, autos)
        if t.ext is not None:
            out += [',', '...']
            for n, num in t.ext:
                out += [','] + self.eitem(n, num, autos)
        return out

    def eitem(self, n, num, autos):
        if autos and self.form % 2 == 0:
            return [n]
        return [n, '(', str(num), ')']

    def field(self, f):
        out = [f.name] + self.type(f.type)
        if f.has_default:
            return out + ['DEFAULT'] + self.value(f.type, f.default)
        return out + (['OPTIONAL'] if f.opt else [])

    def value(self, t, v):
        if isinstance(v, V):
            return [v.name]
        while t[0] == 'Ref':
            t = self.env[t.name]
        k = t[0]
        if k == 'Bool':
            return ['TRUE' if v else 'FALSE']
        if k == 'Int':
            return [str(v)]
        if k == 'Enum':
            return [v]
        if k == 'Bits':
            if len(v) % 4 == 0 and self.form % 2:
                return ["'" + ''.join('%X' % int(v[i:i + 4], 2) for i in range(0, len(v), 4)) + "'H"]
            return ["'" + v + "'B"]
        if k == 'Octs':
            if self.form % 2:
                return ["'" + ''.join(format(b, '08b') for b in v) + "'B"]
            return ["'" + v.hex().upper() + "'H"]
        raise AssertionError(k)

    def assign(self, a):
        if isinstance(a, Assign):
            return [a.name, '::='] + self.type(a.type)
        return [a.name] + self.type(a.type) + ['::='] + self.value(a.type, a.value)


def auto_numbers(t):
    """does automatic numbering give exactly these numbers?"""
    if [n for _, n in t.root] != list(range(len(t.root))):
        return False
    return t.ext is None or [n for _, n in t.ext] == list(range(len(t.root), len(t.root) + len(t.ext)))


def tokens(schema, module='Mod', form=0, tags=True):
    env = {a.name: a.type for a in schema if isinstance(a, Assign)}
    p = Printer(env, form)
    head = [module, 'DEFINITIONS'] + (['AUTOMATIC', 'TAGS'] if tags else []) + ['::=', 'BEGIN']
    return [head] + [p.assign(a) for a in schema] + [['END']]


def text(schema, module='Mod', form=0, tags=True):
    """a conventional layout: one assignment per line; components separated by single spaces"""
    lines = []
    for toks in tokens(schema, module, form, tags):
        s = ' '.join(toks)
        for a, b in (('( ', '('), (' )', ')'), (' ,', ','), (' .. ', '..'), ('SIZE (', 'SIZE(')):
            s = s.replace(a, b)
        lines.append(s)
    return '\n'.join(lines) + '\n'


def pretty(schema, module='Mod', form=0):
    return '\n'.join('  ' + l for l in text(schema, module, form).splitlines())


# ------------------------------------------------------------------ meaning

def resolve(schema):
    """name -> closed model type; value name -> abstract value"""
    types = {a.name: a.type for a in schema if isinstance(a, Assign)}
    values = {a.name: a.value for a in schema if isinstance(a, Value)}

    def val(x):
        while isinstance(x, V):
            x = values[x.name]
        return x

    def close(t):
        k = t[0]
        if k == 'Ref':
            return close(types[t.name])
        if k in ('Int', 'Bits', 'Octs'):
            return type(t)(val(t.lb), val(t.ub), t.ext)
        if k == 'SeqOf':
            return SeqOf(close(t.elem), val(t.lb), val(t.ub), t.ext)
        if k == 'Seq':
            return Seq(tuple(fld(f) for f in t.root), None if t.ext is None else
                       tuple(Group(*[fld(f) for f in e]) if isinstance(e, Group) else fld(e) for e in t.ext))
        if k == 'Choice':
            alt = lambda p: (p[0], close(p[1]))
            return Choice(tuple(alt(p) for p in t.root), None if t.ext is None else
                          tuple(Group(*[alt(p) for p in e]) if isinstance(e, Group) else alt(e) for e in t.ext))
        return t

    def fld(f):
        return Field(f.name, close(f.type), f.opt, val(f.default))
    return {n: close(t) for n, t in types.items()}, {n: (close([a.type for a in schema if isinstance(a, Value) and a.name == n][0]), val(v))
                                                    for n, v in values.items()}


def canon(t):
    """equal canonical forms <=> same abstract type with the same PER-visible constraints"""
    k = t[0]
    if k == 'Int':
        return ('Int', t.lb, t.ub, bool(t.ext))
    if k in ('Bits', 'Octs', 'SeqOf'):
        lb, ub = t.lb, t.ub
        if lb is None:
            lb = 0
        c = (lb, ub, bool(t.ext))
        return (k,) + c + ((canon(t.elem),) if k == 'SeqOf' else ())
    if k == 'Seq':
        return ('Seq', tuple(cfld(f) for f in t.root), None if t.ext is None else tuple(
            ('Group',) + tuple(cfld(f) for f in e) if isinstance(e, Group) else cfld(e) for e in t.ext))
    if k == 'Choice':
        a = lambda p: (p[0], canon(p[1]))
        return ('Choice', tuple(a(p) for p in t.root), None if t.ext is None else tuple(
            ('Group',) + tuple(a(p) for p in e) if isinstance(e, Group) else a(e) for e in t.ext))
    if k == 'Enum':
        return ('Enum', tuple(t.root), None if t.ext is None else tuple(t.ext))
    return tuple(t)


def cfld(f):
    d = ('none',)
    if f.has_default:
        d = ('default', M.norm(f.type, M.thaw(f.type, f.default)))
    return (f.name, canon(f.type), bool(f.opt), repr(d))


# ------------------------------------------------------------------ reading what the generated module declares

class Bad(Exception):
    pass


def load(code, name='Mod'):
    ns = {'__name__': name}
    exec(compile(code, name + '.py', 'exec'), ns)
    return ns


def bound(x):
    return None if x is None else int(x)


def cons(o):
    s = o.subtypeSpec
    return bound(getattr(s, 'lowerEndpoint', None)), bound(getattr(s, 'upperEndpoint', None)), bool(getattr(s, 'extensionMarker', False))


def declared(o):
    """component or type object of a generated class -> model type"""
    if isinstance(o, L.BooleanType):
        return Bool()
    if isinstance(o, L.EnumeratedType):
        root = tuple((str(n), int(v)) for n, v in o.enumerationRoot.items())
        ext = None
        if cons(o)[2]:
            ext = tuple((str(n), int(v)) for n, v in o.extensionAddition.items()) if getattr(o, 'extensionAddition', None) else ()
        alln = tuple((str(n), int(v)) for n, v in o.namedValues.items())
        if alln != root + (ext or ()):
            raise Bad('names of the enumeration are %r, root %r, additions %r' % (alln, root, ext))
        return Enum(root, ext)
    if isinstance(o, L.IntegerType):
        return Int(*cons(o))
    if isinstance(o, L.BitStringType):
        return Bits(*cons(o))
    if isinstance(o, L.OctetStringType):
        return Octs(*cons(o))
    if isinstance(o, L.SequenceOfType):
        return SeqOf(declared(o.componentType), *cons(o))
    if isinstance(o, (L.SequenceType, L.ChoiceType)):
        seq = not isinstance(o, L.ChoiceType)
        item = _dfield if seq else (lambda nt: (str(nt.name), declared(nt.asn1Object)))
        root = tuple(item(nt) for nt in o.rootComponent.namedTypes)
        ext = None
        if cons(o)[2]:
            ext = ()
            if getattr(o, 'extensionAddition', None):
                ext += tuple(item(nt) for nt in o.extensionAddition.namedTypes)
            for g in getattr(o, 'extensionAdditionGroups', None) or ():
                ext += (Group(*[item(nt) for nt in g.namedTypes]),)
        t = (Seq if seq else Choice)(root, ext)
        names = [nt.name for nt in o.componentType.namedTypes]
        want = [f.name for f in M.fields(t)] if seq else [n for n, _ in M.alternatives(t)]
        if names != want:
            raise Bad('components are %r, expected %r' % (names, want))
        return t
    raise Bad('%r is no type of the library' % (o,))


def _dfield(nt):
    t = declared(nt.asn1Object)
    d = NODEF
    if nt.isDefaulted:
        d = L.read(t, nt.asn1Object)
        if isinstance(d, list):
            d = tuple(d)
    return Field(str(nt.name), t, bool(nt.isOptional), d)


def pyname(n):
    return n.replace('-', '_')
