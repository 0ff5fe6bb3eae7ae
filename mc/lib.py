"""Binding of the model to the implementation under /repo (public API only)."""
import importlib
import os
import sys

REPO = os.environ.get('ASN1PERSER_REPO', '/repo')

# third-party code first, with its ordinary byte-code cache ...
import pyasn1
import pyasn1.type.univ            # noqa
import pyasn1.type.char            # noqa
import pyasn1.type.namedtype       # noqa
import pyasn1.type.namedval        # noqa
import pyasn1.type.constraint      # noqa
import pyparsing                   # noqa
import jinja2                      # noqa
import logging                     # noqa
import binascii, codecs, collections   # noqa
# ... then nothing cached: the code under test is compiled from the working tree in this very process
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache-%d' % os.getpid()
sys.path.insert(0, REPO)
for m in [m for m in sys.modules if m == 'asn1PERser' or m.startswith('asn1PERser.')]:
    del sys.modules[m]

import asn1PERser                                                       # noqa
assert os.path.realpath(asn1PERser.__file__).startswith(os.path.realpath(REPO) + os.sep), asn1PERser.__file__
from asn1PERser import encode, decode, parse_asn1_schema                # noqa
from asn1PERser.classes.data.builtin import (BooleanType, IntegerType, EnumeratedType, BitStringType,  # noqa
                                             OctetStringType, SequenceType, SequenceOfType, ChoiceType)
from asn1PERser.classes.types.constraint import (ValueRange, SingleValue, ValueSize, SequenceOfValueSize,  # noqa
                                                 ExtensionMarker, NoConstraint, ConstraintOr, ConstraintAnd, MIN, MAX)
from asn1PERser.classes.types.type import AdditiveNamedTypes            # noqa
from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType   # noqa
from pyasn1.type.namedval import NamedValues                            # noqa
from pyasn1.type.univ import noValue                                    # noqa

from . import model as M                                                # noqa

_cache = {}
_n = [0]


def lo(x):
    return MIN if x is None else x


def hi(x):
    return MAX if x is None else x


def cls_of(t):
    """a class of the shape asn1PERser generates, for a model type"""
    c = _cache.get(t)
    if c is None:
        c = _cache[t] = _build(t)
    return c


def fresh_cls(t):
    """same, but sharing nothing with any earlier class"""
    saved = dict(_cache)
    _cache.clear()
    try:
        return _build(t)
    finally:
        _cache.clear()
        _cache.update(saved)


def _named(f):
    c = cls_of(f.type)
    if f.has_default:
        return DefaultedNamedType(f.name, make(f.type, M.thaw(f.type, f.default)))
    if f.opt:
        return OptionalNamedType(f.name, c())
    return NamedType(f.name, c())


def _combined(e, size, ext=False):
    k = e[0]
    if k == 'r':
        return (ValueSize if size else ValueRange)(lo(e[1]), hi(e[2]), extensionMarker=ext)
    if k == 's':
        return SingleValue(ext, *e[1:])
    return (ConstraintOr if k == '|' else ConstraintAnd)(ext, *[_combined(x, size) for x in e[1:]])


def _build(t):
    k = t[0]
    _n[0] += 1
    name = 'T%d' % _n[0]
    ns = {}
    if k == 'Bool':
        base = BooleanType
    elif k == 'Int':
        base = IntegerType
        if t.expr:
            ns['subtypeSpec'] = _combined(t.expr, False, bool(t.ext))
        elif t.lb is not None or t.ub is not None or t.ext:
            ns['subtypeSpec'] = ValueRange(lo(t.lb), hi(t.ub), extensionMarker=bool(t.ext))
    elif k in ('Bits', 'Octs'):
        base = BitStringType if k == 'Bits' else OctetStringType
        if t.expr:
            ns['subtypeSpec'] = _combined(t.expr, True, bool(t.ext))
        elif t.lb is not None or t.ub is not None or t.ext:
            ns['subtypeSpec'] = ValueSize(lo(t.lb), hi(t.ub), extensionMarker=bool(t.ext))
    elif k == 'Enum':
        base = EnumeratedType
        ns['enumerationRoot'] = NamedValues(*t.root)
        ns['subtypeSpec'] = ExtensionMarker(t.ext is not None)
        if t.ext:
            ns['extensionAddition'] = NamedValues(*t.ext)
            ns['namedValues'] = ns['enumerationRoot'] + ns['extensionAddition']
        else:
            ns['namedValues'] = ns['enumerationRoot']
    elif k == 'SeqOf':
        base = SequenceOfType
        if t.lb is not None or t.ub is not None or t.ext:
            ns['subtypeSpec'] = SequenceOfValueSize(lo(t.lb), hi(t.ub), extensionMarker=bool(t.ext))
        ns['componentType'] = cls_of(t.elem)()
    elif k in ('Seq', 'Choice'):
        base = SequenceType if k == 'Seq' else ChoiceType
        mk = _named if k == 'Seq' else (lambda p: NamedType(p[0], cls_of(p[1])()))
        ns['subtypeSpec'] = ExtensionMarker(t.ext is not None)
        ns['rootComponent'] = AdditiveNamedTypes(*[mk(f) for f in t.root])
        comp = ns['rootComponent']
        adds = [e for e in (t.ext or ()) if not isinstance(e, M.Group)]
        groups = [e for e in (t.ext or ()) if isinstance(e, M.Group)]
        if adds:
            ns['extensionAddition'] = AdditiveNamedTypes(*[mk(f) for f in adds])
            comp = comp + ns['extensionAddition']
        if groups:
            ns['extensionAdditionGroups'] = [AdditiveNamedTypes(*[mk(f) for f in g]) for g in groups]
            comp = comp + ns['extensionAdditionGroups']
        ns['componentType'] = comp
    else:
        raise AssertionError(k)
    return type(base)(name, (base,), ns)


def make(t, v, cls=None):
    """abstract value -> library object, the way a user builds it"""
    k = t[0]
    c = cls or cls_of(t)
    if k in ('Bool', 'Int', 'Enum', 'Bits', 'Octs'):
        return c(v)
    if k == 'Seq':
        o = c()
        ft = {f.name: f.type for f in M.fields(t)}
        for n, x in v.items():
            o[n] = make(ft[n], x, _sub(o, n))
        return o
    if k == 'SeqOf':
        o = c()
        ec = o.componentType.__class__
        o.extend([make(t.elem, x, ec) for x in v])
        return o
    if k == 'Choice':
        o = c()
        o[v[0]] = make(dict(M.alternatives(t))[v[0]], v[1], _sub(o, v[0]))
        return o
    raise AssertionError(k)


def other_ways(t, v, c):
    """further ways the README and the tests build a simple value: (name, function)"""
    k = t[0]
    if k == 'Bool':
        yield 'number', lambda: c(int(v))
    elif k == 'Enum':
        yield 'number', lambda: c(dict(t.root + (t.ext or ()))[v])
    elif k == 'Bits':
        yield 'binValue', lambda: c(binValue=v)
        yield 'tuple', lambda: c(tuple(int(b) for b in v))
        if len(v) % 4 == 0:
            yield 'hexValue', lambda: c(hexValue=''.join('%X' % int(v[i:i + 4], 2) for i in range(0, len(v), 4)))
    elif k == 'Octs':
        yield 'hexValue', lambda: c(hexValue=v.hex())
        yield 'binValue', lambda: c(binValue=''.join(format(b, '08b') for b in v))
        yield 'bytearray', lambda: c(bytearray(v))
        yield 'tuple', lambda: c(tuple(v))


def fill(t, v, cls=None):
    """same value, built the other way: plain Python values for simple components, inner components set in place, reverse order"""
    k = t[0]
    c = cls or cls_of(t)
    if k in ('Bool', 'Int', 'Enum', 'Bits', 'Octs'):
        return c(v)
    o = c()
    _fill(o, t, v)
    return o


def _simple(t):
    return t[0] in ('Bool', 'Int', 'Enum', 'Bits', 'Octs')


def _fill(o, t, v):
    if t[0] == 'SeqOf':
        if not v:
            o.extend([])
        for x in v:
            o.append(x if _simple(t.elem) else fill(t.elem, x, o.componentType.__class__))
        return
    ft = {f.name: f.type for f in M.fields(t)} if t[0] == 'Seq' else dict(M.alternatives(t))
    for n, x in reversed(list(v.items())) if t[0] == 'Seq' else [v]:
        if _simple(ft[n]):
            o[n] = x
        elif t[0] == 'Choice' or ft[n][0] == 'Choice' or not x:
            o[n] = fill(ft[n], x, _sub(o, n))
        else:
            _fill(o[n], ft[n], x)


def _sub(o, n):
    return o.componentType.getTypeByPosition(o.componentType.getPositionByName(n)).__class__


class Bad(Exception):
    pass


def read(t, o):
    """library object -> abstract value (normalised), reading only"""
    k = t[0]
    if k == 'Bool':
        if not isinstance(o, BooleanType):
            raise Bad('not a BOOLEAN: %r' % (o,))
        return bool(o)
    if k == 'Int':
        if not isinstance(o, IntegerType):
            raise Bad('not an INTEGER: %r' % (o,))
        return int(o)
    if k == 'Enum':
        if not isinstance(o, EnumeratedType):
            raise Bad('not an ENUMERATED: %r' % (o,))
        return str(o.namedValues.getName(int(o)))
    if k == 'Bits':
        if not isinstance(o, BitStringType):
            raise Bad('not a BIT STRING: %r' % (o,))
        return o.asBinary() if len(o) else ''
    if k == 'Octs':
        if not isinstance(o, OctetStringType):
            raise Bad('not an OCTET STRING: %r' % (o,))
        return o.asOctets()
    if k == 'Seq':
        if not isinstance(o, SequenceType):
            raise Bad('not a SEQUENCE: %r' % (o,))
        out = {}
        for f in M.fields(t):
            c = o.getComponentByName(f.name, instantiate=False)
            if c is noValue and not (f.opt or f.has_default) and f in t.root:
                c = o[f.name]                 # a mandatory SEQUENCE without any component
            elif c is noValue:
                if f.has_default:
                    out[f.name] = M.norm(f.type, M.thaw(f.type, f.default))
                continue
            out[f.name] = read(f.type, c)
        return out
    if k == 'SeqOf':
        if not isinstance(o, SequenceOfType):
            raise Bad('not a SEQUENCE OF: %r' % (o,))
        return [read(t.elem, o.getComponentByPosition(i, instantiate=False)) for i in range(len(o))]
    if k == 'Choice':
        if not isinstance(o, ChoiceType):
            raise Bad('not a CHOICE: %r' % (o,))
        n = o.getName()
        return (n, read(dict(M.alternatives(t))[n], o.getComponentByName(n, instantiate=False)))
    raise AssertionError(k)
