"""Reference model: ASN.1 type terms, abstract values, and ALIGNED PER (X.691) over them.

Written from X.680/X.691 and independent of /repo: it never imports asn1PERser.

Types (immutable, hashable tuples wrapped in small classes) and their abstract values:

  Bool()                            True / False
  Int(lb, ub, ext)                  int          lb/ub None = MIN/MAX (ignoring the other: open)
  Enum(root, ext)                   name         root, ext: tuples of (name, number); ext None = no marker
  Bits(lb, ub, ext)                 '0101'       lb/ub None = no bound
  Octs(lb, ub, ext)                 b'..'
  Seq(root, ext)                    dict of the PRESENT components (a DEFAULT one is always present)
                                    root: tuple of Field; ext: None | tuple of Field or Group
  SeqOf(elem, lb, ub, ext)          list
  Choice(root, ext)                 (name, value); root: tuple of (name, type); ext: None | tuple of (name, type) | Group

The encoder is a transition system: its state is (type, bits emitted so far), every emitted field is a transition.
"""
from collections import namedtuple

NODEF = '<<no default>>'


class T(tuple):
    """base: a tagged, hashable type term"""
    __slots__ = ()
    _f = ()

    def __new__(cls, *a, **k):
        vals = list(a) + [None] * (len(cls._f) - len(a))
        for n, v in k.items():
            vals[cls._f.index(n)] = v
        return tuple.__new__(cls, [cls.__name__] + vals)

    def __getattr__(self, n):
        try:
            return self[1 + self._f.index(n)]
        except ValueError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s(%s)' % (self[0], ', '.join('%s=%r' % (n, self[1 + i]) for i, n in enumerate(self._f)
                                              if self[1 + i] is not None and self[1 + i] is not False))

    def __reduce__(self):
        return (type(self), tuple(self[1:]))


class Bool(T):
    __slots__ = ()


class Int(T):
    __slots__ = ()
    _f = ('lb', 'ub', 'ext', 'expr')


class Enum(T):
    __slots__ = ()
    _f = ('root', 'ext')


class Bits(T):
    __slots__ = ()
    _f = ('lb', 'ub', 'ext', 'expr')


class Octs(T):
    __slots__ = ()
    _f = ('lb', 'ub', 'ext', 'expr')


class Seq(T):
    __slots__ = ()
    _f = ('root', 'ext')


class SeqOf(T):
    __slots__ = ()
    _f = ('elem', 'lb', 'ub', 'ext')


class Choice(T):
    __slots__ = ()
    _f = ('root', 'ext')


class Field(tuple):
    """name, type, opt (bool), default (NODEF when none)"""
    __slots__ = ()

    def __new__(cls, name, type, opt=False, default=NODEF):
        if isinstance(default, list):
            default = tuple(default)
        return tuple.__new__(cls, (name, type, bool(opt), default))
    name = property(lambda s: s[0])
    type = property(lambda s: s[1])
    opt = property(lambda s: s[2])
    default = property(lambda s: s[3])
    has_default = property(lambda s: not (isinstance(s[3], str) and s[3] == NODEF))

    def __reduce__(self):
        return (Field, tuple(self))


class Group(tuple):
    """extension addition group [[ ... ]]: tuple of Field (in Seq) or of (name, type) (in Choice)"""
    __slots__ = ()

    def __new__(cls, *fields):
        return tuple.__new__(cls, fields)

    def __reduce__(self):
        return (Group, tuple(self))


class Reject(Exception):
    """the abstract value is not a value of the type / cannot be carried by the supported encoding"""


class Short(Exception):
    """the reference decoder needed a bit past the end of the message"""


class Malformed(Exception):
    """the bits are not the encoding of any value of the type (as far as this model defines it)"""


class DontCare(Exception):
    """the bits are outside what the properties speak about (non-canonical, fragmented, ...)"""


# ---------------------------------------------------------------- helpers over types

def fields(t):
    """all Fields of a Seq, in component order (root, then extension in textual order)"""
    out = list(t.root)
    for e in (t.ext or ()):
        out.extend(e if isinstance(e, Group) else [e])
    return out


def alternatives(t):
    out = list(t.root)
    for e in (t.ext or ()):
        out.extend(e if isinstance(e, Group) else [e])
    return out


def root_sorted(t):
    return [n for n, _ in sorted(t.root, key=lambda p: p[1])]


def in_size(n, lb, ub):
    return (lb is None or n >= lb) and (ub is None or n <= ub)


def admits(e, n):
    """combined constraint: ('r', lb, ub) range, ('s', v...) values, ('|', e...) union, ('&', e...) intersection"""
    if e[0] == 'r':
        return in_size(n, e[1], e[2])
    if e[0] == 's':
        return n in e[1:]
    return (any if e[0] == '|' else all)(admits(x, n) for x in e[1:])


def hull(e):
    if e[0] == 'r':
        return e[1], e[2]
    if e[0] == 's':
        return min(e[1:]), max(e[1:])
    bs = [hull(x) for x in e[1:]]
    lo, up = [b[0] for b in bs], [b[1] for b in bs]
    if e[0] == '|':
        return (None if None in lo else min(lo)), (None if None in up else max(up))
    lo, up = [b for b in lo if b is not None], [b for b in up if b is not None]
    return (max(lo) if lo else None), (min(up) if up else None)


def combined(cls, e, ext=False):
    """an Int / Bits / Octs whose constraint is the combination e"""
    lb, ub = hull(e)
    return cls(lb, ub, ext, e)


def hole(t, n, err):
    """n lies inside the bounds of the combined constraint of t: refused unless it is one of its values"""
    if t.expr and in_size(n, t.lb, t.ub) and not admits(t.expr, n):
        raise DontCare('hole of an extensible constraint') if t.ext else err('constraint')


def norm(t, v):
    """canonical plain form of an abstract value: DEFAULT components filled in; comparable with =="""
    k = t[0]
    if k == 'Seq':
        out = {}
        for f in fields(t):
            if f.name in v:
                out[f.name] = norm(f.type, v[f.name])
            elif f.has_default:
                out[f.name] = norm(f.type, thaw(f.type, f.default))
        return out
    if k == 'SeqOf':
        return [norm(t.elem, x) for x in v]
    if k == 'Choice':
        return (v[0], norm(dict(alternatives(t))[v[0]], v[1]))
    return v


def thaw(t, v):
    """defaults are kept hashable in the type term; give back the ordinary form"""
    if t[0] == 'SeqOf':
        return [thaw(t.elem, x) for x in v]
    if t[0] == 'Seq' and isinstance(v, tuple):
        d = dict((f.name, f.type) for f in fields(t))
        return {n: thaw(d[n], x) for n, x in v}
    return v


# ---------------------------------------------------------------- encoder

class W:
    """bit writer; records field boundaries so that states/transitions of the model can be counted"""

    def __init__(self):
        self.s = []
        self.n = 0
        self.cuts = []

    def bits(self, s):
        if s:
            self.s.append(s)
            self.n += len(s)
        self.cuts.append(self.n)

    def num(self, v, width):
        if width:
            if v < 0 or v >> width:
                raise AssertionError('model: %d does not fit %d' % (v, width))
            self.bits(format(v, '0%db' % width))
        else:
            self.cuts.append(self.n)

    def align(self):
        if self.n % 8:
            self.bits('0' * (8 - self.n % 8))

    def value(self):
        return ''.join(self.s)


def octets_unsigned(v):
    return max(1, (v.bit_length() + 7) // 8)


def octets_signed(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return n


def enc_constrained(w, v, lb, ub):
    """11.5 -- only for ranges <= 64K"""
    r = ub - lb + 1
    v -= lb
    if r == 1:
        w.cuts.append(w.n)
    elif r <= 255:
        w.num(v, (r - 1).bit_length())
    elif r == 256:
        w.align()
        w.num(v, 8)
    elif r <= 65536:
        w.align()
        w.num(v, 16)
    else:
        raise AssertionError


def enc_constrained_int(w, v, lb, ub):
    if ub - lb + 1 <= 65536:
        enc_constrained(w, v, lb, ub)
    else:
        n = octets_unsigned(v - lb)
        enc_constrained(w, n, 1, octets_unsigned(ub - lb))
        w.align()
        w.num(v - lb, 8 * n)


def enc_len(w, n):
    """11.9.3.5..7 (no fragmentation: 16384 and more is outside the supported set)"""
    w.align()
    if n <= 127:
        w.num(n, 8)
    elif n < 16384:
        w.num(0x8000 | n, 16)
    else:
        raise Reject('fragmentation')


def enc_unconstrained_int(w, v):
    n = octets_signed(v)
    enc_len(w, n)
    w.num(v & ((1 << (8 * n)) - 1), 8 * n)


def enc_semi(w, v, lb):
    n = octets_unsigned(v - lb)
    enc_len(w, n)
    w.num(v - lb, 8 * n)


def enc_small(w, n):
    """11.6 normally small non-negative whole number"""
    if n <= 63:
        w.bits('0')
        w.num(n, 6)
    else:
        w.bits('1')
        enc_semi(w, n, 0)


def enc_open(w, emit):
    w2 = W()
    emit(w2)
    w2.align()
    if w2.n == 0:
        w2.bits('0' * 8)
    enc_len(w, w2.n // 8)
    w.bits(w2.value())


def enc_string(w, t, content, n, unit, fixed_limit):
    """BIT STRING (unit 1) / OCTET STRING (unit 8)"""
    lb, ub = t.lb or 0, t.ub
    inroot = in_size(n, t.lb, ub)
    if t.ext:
        w.bits('0' if inroot else '1')
        if not inroot:
            enc_len(w, n)
            w.bits(content)
            return
    elif not inroot:
        raise Reject('size')
    if ub == 0:
        return
    if ub is not None and lb == ub and ub < 65536:
        if ub > fixed_limit:
            w.align()
        w.bits(content)
    elif ub is not None and ub < 65536:
        enc_constrained(w, n, lb, ub)
        if n:
            w.align()
            w.bits(content)
    else:
        enc_len(w, n)
        w.bits(content)


def enc(t, v, w):
    k = t[0]
    if k == 'Bool':
        w.bits('1' if v else '0')
    elif k == 'Int':
        inroot = in_size(v, t.lb, t.ub)
        hole(t, v, Reject)
        if t.ext:
            w.bits('0' if inroot else '1')
            if not inroot:
                enc_unconstrained_int(w, v)
                return
        elif not inroot:
            raise Reject('range')
        if t.lb is not None and t.ub is not None:
            enc_constrained_int(w, v, t.lb, t.ub)
        elif t.lb is not None:
            enc_semi(w, v, t.lb)
        else:
            enc_unconstrained_int(w, v)
    elif k == 'Enum':
        names = root_sorted(t)
        if v in names:
            if t.ext is not None:
                w.bits('0')
            enc_constrained(w, names.index(v), 0, len(names) - 1)
        else:
            ext = [n for n, _ in (t.ext or ())]
            if v not in ext:
                raise Reject('enum')
            w.bits('1')
            enc_small(w, ext.index(v))
    elif k == 'Bits':
        hole(t, len(v), Reject)
        enc_string(w, t, v, len(v), 1, 16)
    elif k == 'Octs':
        hole(t, len(v), Reject)
        enc_string(w, t, ''.join(format(b, '08b') for b in v), len(v), 8, 2)
    elif k == 'Seq':
        enc_seq(t, v, w)
    elif k == 'SeqOf':
        n = len(v)
        lb, ub = t.lb or 0, t.ub
        inroot = in_size(n, t.lb, ub)
        if t.ext:
            w.bits('0' if inroot else '1')
        elif not inroot:
            raise Reject('size')
        if inroot and ub is not None and ub < 65536:
            if lb != ub:
                enc_constrained(w, n, lb, ub)
        else:
            enc_len(w, n)
        for x in v:
            enc(t.elem, x, w)
    elif k == 'Choice':
        rn = [n for n, _ in t.root]
        if v[0] in rn:
            if t.ext is not None:
                w.bits('0')
            if len(rn) > 1:
                enc_constrained(w, rn.index(v[0]), 0, len(rn) - 1)
            enc(dict(t.root)[v[0]], v[1], w)
        else:
            ext = alternatives(t)[len(rn):]
            names = [n for n, _ in ext]
            w.bits('1')
            enc_small(w, names.index(v[0]))
            enc_open(w, lambda w2: enc(dict(ext)[v[0]], v[1], w2))
    else:
        raise AssertionError(k)


def present(f, v):
    """is the component encoded: supplied, and (with DEFAULT) different from the default"""
    if f.name not in v:
        return False
    return not f.has_default or norm(f.type, v[f.name]) != norm(f.type, thaw(f.type, f.default))


def enc_fields(root, v, w):
    """preamble bitmap and root components"""
    pres = []
    for f in root:
        p = present(f, v)
        if f.has_default or f.opt:
            w.bits('1' if p else '0')
        elif not p:
            raise Reject('missing %s' % f.name)
        pres.append((f, p))
    for f, p in pres:
        if p:
            enc(f.type, v[f.name], w)


def enc_seq(t, v, w):
    known = {f.name for f in fields(t)}
    for n in v:
        if n not in known:
            raise Reject('unknown component')
    items = []
    if t.ext is not None:
        for e in t.ext:
            if isinstance(e, Group):
                items.append(any(present(f, v) for f in e))
            else:
                items.append(present(e, v))
        w.bits('1' if any(items) else '0')
        # an extension addition of a later version implies every earlier non-optional addition (X.680 25.x)
        last = max([i for i, p in enumerate(items) if p], default=-1)
        for i, e in enumerate(t.ext):
            if i < last and not items[i]:
                if isinstance(e, Group):
                    if not any(f.opt or f.has_default for f in e):
                        raise Reject('missing group')
                    if not all(f.opt or f.has_default for f in e):
                        raise DontCare('earlier group with a mandatory component absent')
                elif not (e.opt or e.has_default):
                    raise Reject('missing addition')
    enc_fields(t.root, v, w)
    if any(items):
        if len(items) > 64:
            raise Reject('more than 64 additions')
        w.bits('0')
        w.num(len(items) - 1, 6)
        w.bits(''.join('1' if p else '0' for p in items))
        for e, p in zip(t.ext, items):
            if not p:
                continue
            if isinstance(e, Group):
                enc_open(w, lambda w2: enc_fields(e, v, w2))
            else:
                enc_open(w, lambda w2: enc(e.type, v[e.name], w2))


def tobytes(bits):
    if not bits:
        return b'\x00'
    bits += '0' * (-len(bits) % 8)
    return int(bits, 2).to_bytes(len(bits) // 8, 'big')


def encode_w(t, v):
    w = W()
    enc(t, v, w)
    return w


def encode(t, v):
    return tobytes(encode_w(t, v).value())


# ---------------------------------------------------------------- decoder

class R:
    def __init__(self, data):
        self.s = ''.join(format(b, '08b') for b in data)
        self.p = 0
        self.dirty = False          # a padding bit was not zero

    def bits(self, n):
        if self.p + n > len(self.s):
            raise Short()
        out = self.s[self.p:self.p + n]
        self.p += n
        return out

    def num(self, n):
        return int(self.bits(n), 2) if n else 0

    def align(self):
        k = -self.p % 8
        if k and '1' in self.bits(k):
            self.dirty = True


def dec_constrained(r, lb, ub):
    n = ub - lb + 1
    if n == 1:
        return lb
    if n <= 255:
        v = r.num((n - 1).bit_length())
    elif n == 256:
        r.align()
        v = r.num(8)
    else:
        r.align()
        v = r.num(16)
    if v > ub - lb:
        raise Malformed('constrained number out of range')
    return lb + v


def dec_len(r, unit=8):
    """unit: bits each counted item takes at least"""
    r.align()
    if r.num(1) == 0:
        return r.num(7)
    if r.num(1) == 0:
        n = r.num(14)
        if n < 128:
            r.dirty = True              # long form of a short length
        return n
    m = r.num(6)
    if not 1 <= m <= 4:
        raise Malformed('fragment size')
    if len(r.s) - r.p < m * 16384 * unit:
        raise Short()
    raise DontCare('fragmentation')


def dec_signed(r):
    n = dec_len(r)
    if n == 0:
        raise Malformed('zero-octet integer')
    v = r.num(8 * n)
    if v >> (8 * n - 1):
        v -= 1 << (8 * n)
    if octets_signed(v) != n:
        r.dirty = True
    return v


def dec_semi(r, lb):
    n = dec_len(r)
    if n == 0:
        raise Malformed('zero-octet integer')
    v = r.num(8 * n)
    if octets_unsigned(v) != n:
        r.dirty = True
    return lb + v


def dec_small(r):
    if r.num(1) == 0:
        return r.num(6)
    v = dec_semi(r, 0)
    if v <= 63:
        r.dirty = True
    return v


def dec_open(r, known=True):
    n = dec_len(r)
    if n == 0:                          # 11.1.3: a complete encoding has at least one octet
        if known:
            raise Malformed('empty open type')
        r.dirty = True
    s = r.bits(8 * n)
    r2 = R(b'')
    r2.s = s
    return r2


def end_open(r, r2):
    """trailing bits in an open type field"""
    rest = r2.s[r2.p:]
    if '1' in rest or (len(rest) >= 8 and not (r2.p == 0 and len(rest) == 8)):
        r.dirty = True
    r.dirty = r.dirty or r2.dirty


def dec_string(r, t, unit, fixed_limit):
    lb, ub = t.lb or 0, t.ub
    if t.ext and r.num(1):
        n = dec_len(r, unit)
        s = r.bits(n * unit)
        if in_size(n, t.lb, ub):
            r.dirty = True
        return s
    if ub == 0:
        return ''
    if ub is not None and lb == ub and ub < 65536:
        if ub > fixed_limit:
            r.align()
        return r.bits(ub * unit)
    if ub is not None and ub < 65536:
        n = dec_constrained(r, lb, ub)
        if n:
            r.align()
        return r.bits(n * unit)
    n = dec_len(r, unit)
    if not in_size(n, t.lb, ub):
        raise Malformed('size')
    return r.bits(n * unit)


def b2o(s):
    return int(s, 2).to_bytes(len(s) // 8, 'big') if s else b''


def dec(t, r):
    k = t[0]
    if k in ('Int', 'Bits', 'Octs') and t.expr:
        v = dec(type(t)(t.lb, t.ub, t.ext), r)
        hole(t, v if k == 'Int' else len(v), Malformed)
        return v
    if k == 'Bool':
        return r.num(1) == 1
    if k == 'Int':
        if t.ext and r.num(1):
            v = dec_signed(r)
            if in_size(v, t.lb, t.ub):
                r.dirty = True
            return v
        if t.lb is not None and t.ub is not None:
            if t.ub - t.lb + 1 <= 65536:
                return dec_constrained(r, t.lb, t.ub)
            n = dec_constrained(r, 1, octets_unsigned(t.ub - t.lb))
            r.align()
            v = r.num(8 * n)
            if octets_unsigned(v) != n:
                r.dirty = True
            if v > t.ub - t.lb:
                raise Malformed('range')
            return t.lb + v
        if t.lb is not None:
            return dec_semi(r, t.lb)
        v = dec_signed(r)
        if not in_size(v, t.lb, t.ub):
            raise Malformed('range')
        return v
    if k == 'Enum':
        if t.ext is not None and r.num(1):
            i = dec_small(r)
            if i >= len(t.ext):
                raise Malformed('unknown enumeration')
            return t.ext[i][0]
        return root_sorted(t)[dec_constrained(r, 0, len(t.root) - 1)]
    if k == 'Bits':
        return dec_string(r, t, 1, 16)
    if k == 'Octs':
        return b2o(dec_string(r, t, 8, 2))
    if k == 'SeqOf':
        lb, ub = t.lb or 0, t.ub
        ext = t.ext and r.num(1)
        if not ext and ub is not None and ub < 65536:
            n = dec_constrained(r, lb, ub)
        else:
            n = dec_len(r, 0)
            if not ext and not in_size(n, t.lb, ub):
                raise Malformed('size')
            if ext and in_size(n, t.lb, ub):
                r.dirty = True
        return [dec(t.elem, r) for _ in range(n)]
    if k == 'Choice':
        if t.ext is not None and r.num(1):
            i = dec_small(r)
            ext = alternatives(t)[len(t.root):]
            r2 = dec_open(r, i < len(ext))
            if i >= len(ext):
                raise Malformed('unknown alternative')
            v = sub_open(ext[i][1], r2)
            end_open(r, r2)
            return (ext[i][0], v)
        i = dec_constrained(r, 0, len(t.root) - 1)
        n, ty = t.root[i]
        return (n, dec(ty, r))
    if k == 'Seq':
        out = {}
        ext = t.ext is not None and r.num(1)
        dec_fields(t.root, r, out)
        if ext:
            if r.num(1):
                r.dirty = True                     # more than 64 additions: outside, but never misread
                n = dec_len(r, 1)
                if n == 0:
                    raise Malformed('no additions')
            else:
                n = r.num(6) + 1
            bm = r.bits(n)
            if '1' not in bm:
                raise DontCare('extension bit without additions')
            for i, b in enumerate(bm):
                if b == '0':
                    continue
                r2 = dec_open(r, i < len(t.ext))
                if i >= len(t.ext):
                    continue                       # unknown addition: skipped
                e = t.ext[i]
                if isinstance(e, Group):
                    g = {}
                    sub_open(None, r2, lambda: dec_fields(e, r2, g))
                    out.update(g)
                    if not g:
                        r.dirty = True
                else:
                    out[e.name] = sub_open(e.type, r2)
                end_open(r, r2)
        return out
    raise AssertionError(k)


def sub_open(t, r2, f=None):
    try:
        return f() if f else dec(t, r2)
    except Short:
        raise Malformed('open type too short')


def dec_fields(root, r, out):
    pres = [(f, r.num(1) == 1 if (f.opt or f.has_default) else True) for f in root]
    for f, p in pres:
        if p:
            v = dec(f.type, r)
            out[f.name] = v
            if f.has_default and norm(f.type, v) == norm(f.type, thaw(f.type, f.default)):
                r.dirty = True
        elif f.has_default:
            out[f.name] = thaw(f.type, f.default)


def decode(t, data):
    """-> (value, bits consumed, canonical?)"""
    r = R(data)
    v = dec(t, r)
    return norm(t, v), r.p, not r.dirty


# ---------------------------------------------------------------- dictionary view (README "Dictionary creation")

def to_dict(t, v, nested=False):
    """expected to_dict(): SEQUENCE -> dict in schema order (present components and DEFAULTs; a nested SEQUENCE with nothing
    to show is left out), SEQUENCE OF -> list, CHOICE -> {alternative: value}, BIT STRING -> number, OCTET STRING -> hex"""
    k = t[0]
    if k == 'Bits':
        return int(v, 2) if v else 0
    if k == 'Octs':
        return v.hex()
    if k == 'SeqOf':
        return [to_dict(t.elem, x) for x in v]
    if k == 'Choice':
        return {v[0]: to_dict(dict(alternatives(t))[v[0]], v[1])}
    if k == 'Seq':
        out = {}
        for f in fields(t):
            if f.name in v:
                d = to_dict(f.type, v[f.name], True)
            elif f.has_default:
                d = to_dict(f.type, thaw(f.type, f.default), True)
            else:
                continue
            if d is not None:
                out[f.name] = d
        return None if nested and not out else out
    return v
