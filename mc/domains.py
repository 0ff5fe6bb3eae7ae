"""The bounded spaces.  Every family is a list of compact payloads; expand(payload) yields (type, [values])
completely and deterministically.  Nothing here is random."""
import itertools
from .model import *          # noqa

# ------------------------------------------------------------------ primitive families

P2 = [1 << k for k in (0, 1, 2, 3, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63, 64)]
EDGE = sorted({0} | {p + d for p in P2 for d in (-1, 0, 1)})
SIGNED = sorted({s * e for e in EDGE for s in (1, -1)} | {-(1 << (8 * k - 1)) - 1 for k in range(1, 10)})
HUGE = sorted({s * ((1 << (8 * k - 1)) + d) for k in (125, 126, 127, 128, 129, 130, 200) for d in (-1, 0) for s in (1, -1)})


def pick(lb, ub):
    """values of a finite range: all of a small one, else every edge offset from both ends"""
    if ub - lb <= 20:
        return list(range(lb, ub + 1))
    out = {lb, lb + 1, ub - 1, ub, (lb + ub) // 2}
    for e in EDGE:
        for v in (lb + e, ub - e):
            if lb <= v <= ub:
                out.add(v)
    if lb <= 0 <= ub:
        out |= {v for v in (-1, 0, 1) if lb <= v <= ub}
    return sorted(out)


def outside(lb, ub):
    out = set()
    if lb is not None:
        out |= {lb - d for d in (1, 2, 127, 128, 129, 255, 256, 257, 32768, 32769, 65536, 1 << 24, 1 << 32, 1 << 64)}
    if ub is not None:
        out |= {ub + d for d in (1, 2, 127, 128, 129, 255, 256, 257, 32767, 32768, 65536, 1 << 24, 1 << 32, 1 << 64)}
    return sorted(v for v in out if not in_size(v, lb, ub))


def patterns(n):
    """bit patterns of length n"""
    if n <= 4:
        return [format(i, '0%db' % n) if n else '' for i in range(1 << n)]
    alt = ('01' * n)[:n]
    return sorted({'0' * n, '1' * n, alt, ('10' * n)[:n], '0' * (n - 1) + '1', '1' + '0' * (n - 1),
                   '0' * (n // 2) + '1' * (n - n // 2)})


def opatterns(n):
    if n == 0:
        return [b'']
    if n == 1:
        return [bytes([b]) for b in (0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xa5, 0xff)]
    r = bytes((i * 37 + 11) & 255 for i in range(n))
    return sorted({bytes(n), b'\xff' * n, b'\x00' * (n - 1) + b'\x01', b'\x00' + b'\x5a' * (n - 1),
                   b'\x0f' + bytes(n - 1), r, b'\x80' + r[1:]})


def sizes(lb, ub, cap=40):
    """lengths inside (lb..ub): all when small, else edges (16384 and more needs fragmentation: not supported)"""
    top = min(ub if ub is not None else 16383, 16383)
    lo_ = lb or 0
    if top - lo_ <= cap:
        return list(range(lo_, top + 1))
    out = {lo_, lo_ + 1, top - 1, top}
    for e in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 1000, 8191, 16382, 16383):
        for v in (e, lo_ + e):
            if lo_ <= v <= top:
                out.add(v)
    return sorted(out)


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


INT_BOUNDS = sorted(set(
    [(lb, lb + r - 1) for lb in (-3, -1, 0, 1, 2, 100) for r in list(range(1, 19)) + [31, 32, 33, 63, 64, 65, 127, 128, 129]] +
    [(lb, lb + r + d - 1) for lb in (0, 1, -1, -128, -129, -32768, -(1 << 31), -(1 << 63), 1 << 32)
     for r in (254, 255, 256, 257, 65535, 65536, 65537, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 56, 1 << 64) for d in (-1, 0, 1)]))
SIZE_BOUNDS_SMALL = [(lb, ub) for ub in range(0, 9) for lb in range(0, ub + 1)]
BIT_BOUNDS = SIZE_BOUNDS_SMALL + [(n, n) for n in range(9, 35)] + \
    [(0, n) for n in range(9, 20)] + [(15, 17), (16, 17), (17, 18), (8, 24), (1, 64), (1, 65), (33, 40)] + \
    [(0, 254), (0, 255), (0, 256), (1, 255), (1, 256), (1, 257), (127, 127), (128, 128), (129, 129), (255, 255), (256, 256),
     (257, 257), (1000, 1000), (0, 65534), (0, 65535), (1, 65535), (0, 65536), (0, 65537), (2, 70000), (100, 65535), (200, 65536)]
OCT_BOUNDS = SIZE_BOUNDS_SMALL + [(n, n) for n in range(9, 20)] + \
    [(0, n) for n in (9, 15, 16, 17, 31, 32, 33)] + [(2, 3), (3, 20), (1, 64), (1, 65), (33, 40)] + \
    [(0, 254), (0, 255), (0, 256), (1, 255), (1, 256), (1, 257), (127, 127), (128, 128), (129, 129), (255, 255), (256, 256),
     (257, 257), (1000, 1000), (0, 65534), (0, 65535), (1, 65535), (0, 65536), (0, 65537), (2, 70000), (100, 65535), (200, 65536)]
OPEN = [(None, None)]
HALF = [(0, None), (1, None), (5, None), (130, None)]
LOWOPEN = [(None, 0), (None, 1), (None, 7), (None, 300)]


def enum_root(n, kind='plain'):
    if kind == 'plain':
        return tuple(('e%d' % i, i) for i in range(n))
    if kind == 'gaps':
        return tuple(('e%d' % i, 3 * i + 2) for i in range(n))
    if kind == 'desc':
        return tuple(('e%d' % i, n - 1 - i) for i in range(n))
    raise AssertionError


def _rng(*a):
    return ('r',) + a


_R = [_rng(0, 0), _rng(1, 3), _rng(2, 6), _rng(5, 5), _rng(0, 10), _rng(20, 30), _rng(0, 255), _rng(100, 300), _rng(0, 65536), _rng(0, None), _rng(7, None)]
_RI = [_rng(-10, -3), _rng(-200, 70000), _rng(None, 4), _rng(None, None), ('s', 4), ('s', 1, 5, 9), ('s', -3, 300)]


def combos():
    """(class, combined constraint): single values, unions and intersections of ranges as the constraint classes of the library express them"""
    out = []
    for cls, rs in ((Int, _R + _RI), (Bits, _R), (Octs, _R)):
        ranges = [r for r in rs if r[0] == 'r']
        if cls is Int:
            out += [(cls, r) for r in rs if r[0] == 's']
        for a, b in itertools.product(rs, rs):
            out.append((cls, ('|', a, b)))
        for a, b in itertools.product(ranges, ranges):
            lb, ub = hull(('&', a, b))
            if lb is None or ub is None or lb <= ub:
                out.append((cls, ('&', a, b)))
        for a, b, c in itertools.combinations(rs, 3):
            out.append((cls, ('|', a, b, c)))
    return out


COMBOS = combos()


def combo_edges(e):
    if e[0] == 'r':
        return {x + d for x in e[1:] if x is not None for d in (-1, 0, 1)}
    if e[0] == 's':
        return {x + d for x in e[1:] for d in (-1, 0, 1)}
    return set().union(*[combo_edges(x) for x in e[1:]])


def combo_vals(cls, e):
    """values at, inside and outside every edge of the combination"""
    ns = sorted(combo_edges(e) | {0, 1})
    if cls is Int:
        return ns
    pat = patterns if cls is Bits else opatterns
    return [pat(n)[-1] for n in ns if 0 <= n < 400]


def prim_payloads(tier):
    """(label, payload, prefixes) -- prefixes: which bit offsets to put the value at"""
    th = tier == 'thorough'
    out = []
    allk = tuple(range(8))
    out.append(('bool', ('bool',), allk))
    for i, c in enumerate(chunks(INT_BOUNDS, 12)):
        out.append(('int.bounds.%d' % i, ('int', tuple(c)), allk if th else (0, 1, 3, 7)))
    step = 1500
    top = 66000 if th else 66000
    for a in range(1, top, step):
        out.append(('int.ranges.%d' % a, ('ranges', a, min(a + step, top)), ()))
    lim = 200000 if th else 70000
    for a in range(-lim, lim, 10000):
        out.append(('int.all.%d' % a, ('intall', a, min(a + 10000, lim)), ()))
    out.append(('int.open', ('intopen',), allk))
    out.append(('int.open.ext', ('intopenext',), allk))
    for i, c in enumerate(chunks(range(1, 262 if not th else 300), 20)):
        out.append(('enum.%d' % i, ('enum', tuple(c)), (0, 1, 7) if not th else allk))
    out.append(('enum.ext', ('enumext',), (0, 1, 5) if not th else allk))
    out.append(('enum.numbers', ('enumnum',), (0, 1, 6)))
    for i, c in enumerate(chunks(BIT_BOUNDS + OPEN + HALF + LOWOPEN, 8)):
        out.append(('bits.%d' % i, ('str', 'Bits', tuple(c)), (0, 1, 5, 7) if not th else allk))
    for i, c in enumerate(chunks(OCT_BOUNDS + OPEN + HALF + LOWOPEN, 8)):
        out.append(('octs.%d' % i, ('str', 'Octs', tuple(c)), (0, 1, 5, 7) if not th else allk))
    for i in range(0, len(COMBOS), 120):
        out.append(('combo.%d' % i, ('combo', i, i + 120), (1, 7) if not th else allk))
    out.append(('bits.all', ('bitsall', 10 if th else 8), (0, 3)))
    out.append(('octs.all', ('octsall',), (0, 3)))
    return out


def expand_prim(p):
    k = p[0]
    if k == 'bool':
        yield Bool(), [False, True]
    elif k == 'int':
        for lb, ub in p[1]:
            yield Int(lb, ub), pick(lb, ub)
            yield Int(lb, ub, True), pick(lb, ub) + outside(lb, ub)
    elif k == 'ranges':
        for r in range(p[1], p[2]):
            yield Int(0, r - 1), sorted({0, r // 2, r - 1})
    elif k == 'intall':
        vals = list(range(p[1], p[2]))
        yield Int(), vals
        pos = [v for v in vals if v >= 0]
        if pos:
            yield Int(0, None), pos
            yield Int(0, 69999), [v for v in pos if v <= 69999]
        sm = [v for v in vals if -300 <= v <= 300]
        if sm:
            yield Int(-300, 300), sm
            yield Int(-5, 5, True), sm
    elif k == 'intopen':
        yield Int(), SIGNED + HUGE
        for lb in (0, 1, -1, 5, -128, 127, 128, -129, 65536, -65536, 1 << 32):
            yield Int(lb, None), sorted({lb + e for e in EDGE} | {lb + (1 << 1015) - 1, lb + (1 << 1016), lb + (1 << 1024)})
        for ub in (0, 1, -1, 5, 127, -128, 255, 65535, 1 << 32):
            yield Int(None, ub), [v for v in SIGNED + HUGE if v <= ub]
    elif k == 'intopenext':
        for lb in (0, -1, 5, 128):
            yield Int(lb, None, True), sorted({lb + e for e in EDGE} | set(outside(lb, None)))
        for ub in (0, -1, 5, 255):
            yield Int(None, ub, True), [v for v in SIGNED if v <= ub] + outside(None, ub)
    elif k == 'enum':
        for n in p[1]:
            r = enum_root(n)
            idx = range(n) if n <= 20 else sorted({0, 1, 2, n // 2, n - 2, n - 1, 63, 64, 127, 128, 255} & set(range(n)))
            vals = ['e%d' % i for i in idx]
            yield Enum(r, None), vals
            yield Enum(r, ()), vals
            yield Enum(r, (('x0', n),)), vals + ['x0']
    elif k == 'enumext':
        for n in (1, 2, 3, 4, 5, 8, 9):
            r = enum_root(n)
            for m in (1, 2, 3, 63, 64, 65, 66, 130, 257, 300):
                x = tuple(('x%d' % i, n + i) for i in range(m))
                idx = range(m) if m <= 8 else sorted({0, 1, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, m - 2, m - 1} & set(range(m)))
                yield Enum(r, x), ['e%d' % i for i in range(n)] + ['x%d' % i for i in idx]
    elif k == 'enumnum':
        for n in (1, 2, 3, 4, 5):
            for kind in ('gaps', 'desc'):
                r = enum_root(n, kind)
                yield Enum(r, None), [a for a, _ in r]
                yield Enum(r, ()), [a for a, _ in r]
                x = (('x0', 40), ('x1', 50))
                yield Enum(r, x), [a for a, _ in r] + ['x0', 'x1']
        for nums in ((-1, 0), (-5, -2), (-5, 3), (3, -5), (-2, -1, 0), (0, -3, 7), (5, -200, 300), (-32769, 65536), (1 << 31, -(1 << 31), 0), (-1, -2, -3, -4)):
            r = tuple(('n%d' % i, m) for i, m in enumerate(nums))
            yield Enum(r, None), [a for a, _ in r]
            yield Enum(r, ()), [a for a, _ in r]
            yield Enum(r, (('x0', -7), ('x1', -6), ('x2', 70000))), [a for a, _ in r] + ['x0', 'x1', 'x2']
        for perm in itertools.permutations((0, 1, 2, 3)):
            r = tuple(('e%d' % i, m) for i, m in enumerate(perm))
            yield Enum(r, None), [a for a, _ in r]
            yield Enum(r, (('x0', 7),)), [a for a, _ in r] + ['x0']
        for nums in itertools.combinations(range(0, 6), 3):
            r = tuple(zip('abc', nums))
            yield Enum(r, None), list('abc')
            # extension numbers may lie between root numbers (X.680 20.4)
            free = [q for q in range(0, 8) if q not in nums][:2]
            yield Enum(r, (('x', free[0]), ('y', free[1]))), list('abcxy')
    elif k == 'str':
        cls = Bits if p[1] == 'Bits' else Octs
        pat = patterns if p[1] == 'Bits' else opatterns
        for lb, ub in p[2]:
            ls = sizes(lb, ub)
            yield cls(lb, ub), [v for n in ls for v in (pat(n) if n < 300 else pat(n)[1:4])]
            if (lb, ub) != (None, None):
                outs = sorted({n for n in (0, 1, 2, 3, (lb or 0) - 1, (ub if ub is not None else 0) + 1, 20, 127, 128, 129, 300)
                               if 0 <= n < 16384 and not in_size(n, lb, ub)})
                yield cls(lb, ub, True), [v for n in ls + outs for v in (pat(n)[:5] if n < 300 else pat(n)[1:3])]
    elif k == 'combo':
        for cls, e in COMBOS[p[1]:p[2]]:
            for ext in (False, True):
                yield combined(cls, e, ext), combo_vals(cls, e)
    elif k == 'bitsall':
        for T_ in (Bits(), Bits(0, p[1]), Bits(0, 5, True), Bits(None, None, False)):
            yield T_, [format(i, '0%db' % n) if n else '' for n in range(p[1] + 1) for i in range(1 << n)]
    elif k == 'octsall':
        one = [bytes([b]) for b in range(256)]
        two = [bytes([a, b]) for a in (0, 1, 127, 128, 255) for b in range(0, 256, 5)]
        three = [bytes([a, b, c]) for a in (0, 1, 255) for b in (0, 1, 255) for c in (0, 1, 16, 255)]
        for T_ in (Octs(), Octs(0, 3), Octs(0, 1, True), Octs(1, 3)):
            yield T_, ([b''] if T_.lb != 1 else []) + one + two + three
        yield Octs(1, 1), one
        yield Octs(2, 2), two
        yield Octs(3, 3), three
    else:
        raise AssertionError(k)


TAIL = Field('zz', Bits(3, 3))
TAILV = '101'


def at_offset(t, k):
    """SEQUENCE { k BOOLEANs, the type under test, a 3-bit tail }: puts the value at bit offset k"""
    return Seq(tuple(Field('p%d' % i, Bool()) for i in range(k)) + (Field('xx', t), TAIL), None)


def val_at_offset(v, k):
    d = {'p%d' % i: True for i in range(k)}
    d['xx'] = v
    d['zz'] = TAILV
    return d


# ------------------------------------------------------------------ constructed families

B = Bool()
I8 = Int(0, 255)                 # octet aligned
I3 = Int(0, 6)                   # 3 bits
OV = Octs(0, 3)                  # 2-bit length, aligned content
BV = Bits(0, 3)
IU = Int()                       # unconstrained
LEAVES = {'B': (B, [True, False]), 'I8': (I8, [5, 0]), 'I3': (I3, [6, 0]), 'OV': (OV, [b'\x00\x7f', b'']),
          'BV': (BV, ['01', '']), 'IU': (IU, [-129, 0]), 'EN': (Enum((('r', 0), ('g', 1), ('b', 2)), (('x', 3),)), ['x', 'g'])}
CYCLE = ['I3', 'I8', 'OV', 'B', 'IU', 'BV', 'EN']


def leaf(i):
    return LEAVES[CYCLE[i % len(CYCLE)]]


def kinds_to_fields(kinds, base, pre):
    """kinds: string over m/o/d -> Fields, types rotating by position"""
    out = []
    for i, k in enumerate(kinds):
        t, vs = leaf(base + i)
        out.append(Field('%s%d' % (pre, i), t, k == 'o', vs[1] if k == 'd' else NODEF))
    return tuple(out)


def field_options(f):
    """value choices for one field: list of (absent?) / values; DEFAULT fields get absent (=default), default, other"""
    vs = VALS[f.type]
    opts = list(vs)
    return opts


VALS = {t: v for t, v in LEAVES.values()}


def vals(t):
    """a small complete-by-rule value set of a type: two values per leaf, every presence pattern, list lengths 0..2"""
    if t in VALS:
        return VALS[t]
    k = t[0]
    if k == 'Bool':
        r = [True, False]
    elif k == 'Int':
        lo_ = t.lb if t.lb is not None else (t.ub - 300 if t.ub is not None else -129)
        hi_ = t.ub if t.ub is not None else lo_ + 300
        r = [lo_, hi_] if lo_ != hi_ else [lo_]
        if t.ext:
            r = r + [hi_ + 1]
    elif k == 'Enum':
        r = [n for n, _ in t.root][:2] + [n for n, _ in (t.ext or ())][:1]
    elif k in ('Bits', 'Octs'):
        pat = patterns if k == 'Bits' else opatterns
        ls = sorted({t.lb or 0, min(t.ub if t.ub is not None else 3, 40)})
        if t.ext:
            ls.append((t.ub if t.ub is not None else 3) + 1)
        r = [pat(n)[min(1, len(pat(n)) - 1)] for n in ls]
    elif k == 'Seq':
        r = list(seq_values(t))
    elif k == 'SeqOf':
        ev = vals(t.elem)
        ls = sorted({t.lb or 0, min(t.ub if t.ub is not None else 2, (t.lb or 0) + 2)})
        if t.ext:
            ls.append((t.ub if t.ub is not None else 2) + 1)
        r = []
        for n in ls:
            if n == 0:
                r.append([])
            else:
                r.append([ev[i % len(ev)] for i in range(n)])
                if len(ev) > 1:
                    r.append([ev[(i + 1) % len(ev)] for i in range(n)])
    elif k == 'Choice':
        r = [(n, v) for n, ty in alternatives(t) for v in vals(ty)]
    VALS[t] = r
    return r


ABSENT = object()


def seq_values(t, per_field=None):
    """every presence pattern x per-field values"""
    fs = fields(t)
    opts = []
    root = set(f.name for f in t.root)
    for f in fs:
        vs = list((per_field or vals)(f.type))
        if f.opt or f.has_default or f.name not in root:
            vs = [ABSENT] + vs
        opts.append(vs)
    for combo in itertools.product(*opts):
        yield {f.name: v for f, v in zip(fs, combo) if v is not ABSENT}


ROOTS = {1: ['', 'm', 'o', 'd'], 2: [a + b for a in 'mod' for b in 'mod'], 3: [a + b + c for a in 'mod' for b in 'mod' for c in 'mod']}
ADDS = ['', 'm', 'o', 'd', 'mm', 'mo', 'om', 'oo', 'mmo', 'oom']
GROUPS = ['m', 'o', 'mo', 'om', 'oo', 'dm']


def seq_shapes(tier):
    """(root kinds, ext) with ext None | (adds kinds, (group kinds, ...))"""
    out = []
    roots = ROOTS[1] + ROOTS[2] + (ROOTS[3] if tier == 'thorough' else [])
    for r in roots + ([] if tier == 'thorough' else ROOTS[3]):
        out.append((r, None))
    gsets = [()] + [(g,) for g in GROUPS] + [(g, h) for g in GROUPS for h in GROUPS]
    for r in roots:
        for a in ADDS:
            for g in gsets:
                if tier != 'thorough':
                    if len(r) >= 2 and (len(a) > 1 and len(g) > 1):
                        continue
                    if len(a) > 2 and len(g) > 1:
                        continue
                out.append((r, (a, g)))
    return out


def shape_type(shape):
    r, ext = shape
    root = kinds_to_fields(r, 0, 'a')
    if ext is None:
        return Seq(root, None)
    a, gs = ext
    items = list(kinds_to_fields(a, 3, 'b'))
    for j, g in enumerate(gs):
        items.append(Group(*kinds_to_fields(g, 1 + j, 'c%d' % j)))
    return Seq(root, tuple(items))


def one_two(t):
    """per-field values used for the shapes: both leaf values in small types, one in large"""
    return vals(t)


def one_val(t):
    return vals(t)[:1]


def shape_values(t):
    fs = fields(t)
    n = len(fs)
    if n <= 4:
        return seq_values(t)
    return seq_values(t, one_val)


def NESTED(tier):
    """all constructor trees: depth-3 over small leaves"""
    l0 = [B, I8, OV] if tier != 'thorough' else [B, I8, OV, IU, BV]

    def wrap(ts, full):
        out = []
        for t in ts:
            out.append(Seq((Field('f', t),), None))
            out.append(Seq((Field('f', t, True), Field('g', B)), None))
            out.append(Seq((Field('g', B), ), (Field('h', t, True), )))
            out.append(Seq((Field('g', B, True), ), (Group(Field('h', t), Field('k', I3, True)), )))
            out.append(SeqOf(t))
            out.append(SeqOf(t, 0, 2))
            out.append(SeqOf(t, 2, 2))
            out.append(SeqOf(t, 0, 1, True))
            out.append(Choice((('x', t), ('y', I3)), None))
            out.append(Choice((('y', I3), ), (('x', t), )))
            out.append(Choice((('y', I3), ), (('z', B), Group(('x', t), ('w', I8)), )))
        return out
    l1 = wrap(l0, True)
    l2 = wrap(l1, True)
    l3 = wrap(l2, True) if tier == 'thorough' else wrap([t for i, t in enumerate(l2) if t[0] in ('Seq', 'Choice', 'SeqOf')], False)
    return l1, l2, l3


def big_types():
    """boundary cases of counts and lengths in constructed types: (type, values)"""
    # many OPTIONAL components
    for n in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 70, 128, 129]:
        fs = tuple(Field('o%d' % i, I3 if i % 2 else I8, i % 3 != 2, 0 if i % 3 == 2 else NODEF) for i in range(n))
        t = Seq(fs, None)
        allp = {f.name: 5 for f in fs}
        vs = [{}, allp]
        for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            vs.append({fs[i].name: 6})
            vs.append({f.name: 3 for j, f in enumerate(fs) if j != i})
        yield t, vs
        yield Seq(fs, ()), vs
    # many extension additions, and groups
    for n in list(range(1, 18)) + [31, 32, 33, 62, 63, 64]:
        fs = tuple(Field('x%d' % i, I3 if i % 2 else I8, True) for i in range(n))
        t = Seq((Field('r', B),), fs)
        vs = [{'r': True}, dict([('r', True)] + [(f.name, 5) for f in fs])]
        for i in sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))):
            vs.append({'r': False, fs[i].name: 6})
        yield t, vs
        gs = tuple(Group(Field('x%d' % i, I3 if i % 2 else I8, True)) for i in range(n))
        yield Seq((Field('r', B),), gs), vs
        if n > 3:
            yield Seq((Field('r', B),), fs[:n // 2] + gs[n // 2:]), vs
    # CHOICE sizes
    for n in list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300]:
        alts = tuple(('c%d' % i, I3 if i % 2 else I8) for i in range(n))
        idx = sorted(set(range(min(n, 9))) | ({62, 63, 64, 127, 128, 254, 255, 256, n // 2, n - 2, n - 1} & set(range(n))))
        vs = [('c%d' % i, 5) for i in idx]
        yield Choice(alts, None), vs
        yield Choice(alts, ()), vs
        yield Choice((('r0', B),), alts), [('r0', True)] + vs
        yield Choice((('r0', B), ('r1', I8), ('r2', B)), alts), [('r0', True), ('r1', 7), ('r2', False)] + vs
        if n > 2:
            yield Choice((('r0', B), ('r1', B)), (alts[0], Group(*alts[1:]))), [('r1', True)] + vs
            yield Choice((('r0', B), ('r1', B)), (Group(*alts[:n // 2]), Group(*alts[n // 2:]))), [('r1', True)] + vs
    # SEQUENCE OF sizes
    for e, ev in ((B, [True, False]), (I8, [7, 255]), (OV, [b'\x01\x02', b'', b'\x00']), (I3, [1, 6])):
        for lb, ub in SIZE_BOUNDS_SMALL + OPEN + HALF[:3] + LOWOPEN[:3]:
            for ext in (False, True):
                if ext and lb is None and ub is None:
                    continue
                ls = [n for n in range(0, 10) if ext or in_size(n, lb, ub)]
                yield SeqOf(e, lb, ub, ext), [[ev[(i + s) % len(ev)] for i in range(n)] for n in ls for s in (0, 1)]
    for lb, ub in [(0, 20), (16, 16), (17, 17), (3, 100), (0, 254), (0, 255), (0, 256), (1, 255), (1, 256), (1, 257), (255, 255), (256, 256),
                   (0, 65534), (0, 65535), (1, 65535), (0, 65536), (0, 70000), (None, None), (130, None), (1, None)]:
        ls = sizes(lb, ub, 20)
        ls = [n for n in ls if n < 300 or n in (1000, 16383)]
        yield SeqOf(B, lb, ub), [[(i % 3 == 0) for i in range(n)] for n in ls]
        if (lb, ub) != (None, None):
            outs = [n for n in (0, 1, 2, 21, 127, 128, 129, 300) if not in_size(n, lb, ub)]
            yield SeqOf(B, lb, ub, True), [[(i % 3 == 0) for i in range(n)] for n in [m for m in ls if m <= 300] + outs]
    # open type sizes
    lens = [0, 1, 2, 124, 125, 126, 127, 128, 129, 130, 254, 255, 256, 300, 16380, 16381]
    big = [bytes((i * 7 + n) & 255 for i in range(n)) for n in lens]
    yield Seq((Field('r', B),), (Field('o', Octs(), True), Field('p', I3, True))), \
        [{'r': True, 'o': v} for v in big] + [{'r': True, 'o': v, 'p': 5} for v in big]
    yield Seq((Field('r', B),), (Group(Field('o', Octs()), Field('q', B, True)), Field('p', I3, True))[:1]), \
        [{'r': True, 'o': v} for v in big] + [{'r': True, 'o': v, 'q': True} for v in big]
    yield Choice((('r', B),), (('o', Octs()), ('s', I3))), [('o', v) for v in big] + [('s', 3), ('r', True)]
    # elements that take no bits at all
    for e in (Int(5, 5), Seq((), None), Bits(0, 0), Octs(0, 0), Enum((('only', 0),), None), Choice((('only', Int(1, 1)),), None), SeqOf(B, 0, 0), SeqOf(Int(2, 2), 2, 2),
              Seq((Field('a', Int(7, 7)), Field('b', Octs(0, 0))), None)):
        ev = vals(e)[0]
        for lb, ub in [(None, None), (0, 3), (2, 2), (1, 9), (0, 255), (0, 256), (1, None), (0, 65536)]:
            for ext in (False, True):
                if ext and lb is None:
                    continue
                ls = [[ev] * n for n in (0, 1, 2, 3, 4, 9, 127, 128, 200) if ext or in_size(n, lb, ub)]
                yield SeqOf(e, lb, ub, ext), ls
                yield Seq((Field('p', B), Field('l', SeqOf(e, lb, ub, ext)), Field('q', I3)), ()), [dict(p=True, l=l, q=5) for l in ls]
    # DEFAULT of every type
    for t, d, others in DEFAULTS:
        for seq in (Seq((Field('a', B), Field('d', t, False, d), Field('z', I3)), None),
                    Seq((Field('d', t, False, d),), ()),
                    Seq((Field('a', B),), (Field('d', t, False, d), Field('e', B, True))),
                    Seq((Field('a', B),), (Group(Field('d', t, False, d), Field('e', B)),))):
            base = {'a': True, 'z': 4} if len(seq.root) == 3 else ({'a': True} if seq.root[0].name == 'a' else {})
            vs = []
            for extra in ([{}] if not seq.ext else [{}, {'e': True}]):
                if seq.ext and isinstance(seq.ext[0], Group) and not extra:
                    vs.append(dict(base))
                    continue
                b = dict(base, **extra)
                vs += [b, dict(b, d=thaw(t, d))] + [dict(b, d=o) for o in others]
            yield seq, vs


DEFAULTS = [
    (Bool(), True, [False]), (Bool(), False, [True]),
    (Int(), 0, [1, -1]), (Int(), -1, [0, 255]), (Int(0, 255), 255, [0, 254]), (Int(0, 7, True), 7, [0, 8]), (Int(0, 7, True), 9, [7, 10]),
    (Enum((('a', 0), ('b', 1)), None), 'b', ['a']), (Enum((('a', 0),), (('b', 1),)), 'b', ['a']),
    (Bits(0, 4), '0101', ['101', '00101'[:4], '0', '']), (Bits(), '0000', ['000', '0', '', '1']), (Bits(2, 2), '00', ['01', '11']),
    (Octs(0, 3), b'\x00\x01', [b'\x01', b'', b'\x00']), (Octs(), b'\x00', [b'\x00\x00', b'', b'\x01']), (Octs(1, 1), b'\xff', [b'\x00']),
]


# ------------------------------------------------------------------ every kind of component in every kind of place

def _mix_types():
    out = [Bool()]
    for lb, ub in [(0, 0), (5, 5), (0, 1), (-2, 1), (0, 6), (0, 254), (0, 255), (1, 256), (0, 256), (-200, 65000), (0, 65535), (1, 65536), (0, 65536),
                   (0, (1 << 24) - 1), (0, 1 << 32), (-(1 << 63), (1 << 63) - 1), (0, None), (-5, None), (None, 5), (None, None)]:
        out.append(Int(lb, ub))
    for lb, ub in [(4, 4), (0, 6), (0, 255), (0, 999), (0, 65536), (0, None), (None, 5)]:
        out.append(Int(lb, ub, True))
    out += [Enum(enum_root(1), None), Enum(enum_root(2), None), Enum(enum_root(5, 'desc'), None), Enum(enum_root(257), None),
            Enum(enum_root(1), (('x0', 1),)), Enum(enum_root(3, 'gaps'), (('x0', 3), ('x1', 1000))), Enum(enum_root(2), ())]
    for lb, ub in [(None, None), (0, 0), (1, 1), (3, 3), (8, 8), (15, 15), (16, 16), (17, 17), (24, 24), (0, 3), (1, 16), (0, 17), (16, 17), (0, 255), (0, 256), (0, 65536),
                   (3, None), (None, 7)]:
        out.append(Bits(lb, ub))
    for lb, ub in [(0, 0), (4, 4), (16, 16), (17, 17), (0, 3), (1, 20), (2, None)]:
        out.append(Bits(lb, ub, True))
    for lb, ub in [(None, None), (0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (0, 1), (0, 2), (1, 2), (2, 3), (0, 255), (0, 256), (0, 65536), (1, None), (None, 2)]:
        out.append(Octs(lb, ub))
    for lb, ub in [(0, 0), (1, 1), (2, 2), (3, 3), (0, 2), (2, None)]:
        out.append(Octs(lb, ub, True))
    out += [Seq((), None), Seq((), ()), Seq((Field('u', B),), None), Seq((Field('u', I8, True),), None), Seq((Field('u', B),), (Field('v', I3, True),)),
            Seq((Field('u', I3, False, 2),), (Group(Field('v', I8), Field('w', B, True)),)),
            SeqOf(B), SeqOf(I8, 0, 2), SeqOf(B, 2, 2), SeqOf(I3, 0, 1, True), SeqOf(OV, 1, None), SeqOf(Int(3, 3)), SeqOf(Seq((), None), 0, 3),
            Choice((('u', B),), None), Choice((('u', I8), ('v', B), ('w', OV)), None), Choice((('u', B),), (('v', I3), Group(('w', I8), ('x', B)))),
            Choice((('u', Seq((), None)), ('v', B)), ())]
    return out


MIX = _mix_types()


def mix_vals(t, n=6):
    """boundary values of one component type, at most n, evenly spread"""
    k = t[0]
    if k == 'Int':
        if t.lb is not None and t.ub is not None:
            r = [v for v in sorted({t.lb, t.lb + 1, (t.lb + t.ub) // 2, t.ub - 1, t.ub}) if t.lb <= v <= t.ub]
        elif t.lb is not None:
            r = [t.lb, t.lb + 127, t.lb + 255, t.lb + 256, t.lb + 65536]
        else:
            top = t.ub if t.ub is not None else 40000
            r = [top, min(top, 0), -1, -128, -129, -32769]
        if t.ext:
            r = r[:1] + r[-1:] + outside(t.lb, t.ub)[:1] + outside(t.lb, t.ub)[-12:][:3]
    elif k == 'Enum':
        r = [t.root[0][0], t.root[-1][0]] + [a for a, _ in (t.ext or ())]
    elif k in ('Bits', 'Octs'):
        pat = patterns if k == 'Bits' else opatterns
        lo_, top = t.lb or 0, min(t.ub if t.ub is not None else 130, 300)
        ls = sorted({lo_, min(lo_ + 1, top), min(lo_ + 2, top), top})
        if t.ext:
            ls = [lo_, top] + [x for x in (lo_ - 1, (t.ub + 1) if t.ub is not None else -1, (t.ub + 17) if t.ub is not None else -1) if x >= 0]
        r = []
        for i, x in enumerate(ls):
            ps = pat(x)
            r.append(ps[i % len(ps)])
            if len(ps) > 2:
                r.append(ps[-1 - i % 2])
    else:
        r = vals(t)
    return spread(r, n)


def mix_place(t):
    """(place, type, values): the component type t in every kind of place, at several bit offsets, twice where possible"""
    vs = mix_vals(t)
    v0 = vs[0]
    rot = list(zip(vs, vs[1:] + vs[:1]))
    for k in (0, 1, 3, 7):
        pre = tuple(Field('p%d' % i, B) for i in range(k))
        pv = {'p%d' % i: i % 2 == 0 for i in range(k)}
        yield Seq(pre + (Field('f', t), TAIL), None), [dict(pv, f=v, zz=TAILV) for v in vs]
    yield Seq((Field('p', B), Field('f', t), Field('g', t), TAIL), None), [dict(p=True, f=v, g=w, zz=TAILV) for v, w in rot]
    yield Seq((Field('f', t, True), Field('g', t, True), TAIL), None), \
        [dict(zz=TAILV)] + [dict(f=v, zz=TAILV) for v in vs] + [dict(g=v, zz=TAILV) for v in vs] + [dict(f=v, g=w, zz=TAILV) for v, w in rot]
    if t[0] in ('Bool', 'Int', 'Enum', 'Bits', 'Octs'):
        yield Seq((Field('p', B), Field('f', t, False, vs[-1]), Field('g', t, True), TAIL), None), \
            [dict(p=False, zz=TAILV)] + [dict(p=True, f=v, g=w, zz=TAILV) for v, w in rot] + [dict(p=True, f=v, zz=TAILV) for v in vs]
        yield Seq((Field('p', B),), (Field('f', t, False, vs[-1]), Group(Field('g', t, False, v0), Field('h', t)))), \
            [dict(p=False)] + [dict(p=True, f=v) for v in vs] + [dict(p=True, f=v, g=w, h=v) for v, w in rot] + [dict(p=True, g=w, h=v) for v, w in rot]
    yield Seq((Field('p', B),), (Field('f', t), Field('g', t, True), Field('h', I3, True))), \
        [dict(p=True)] + [dict(p=True, f=v) for v in vs] + [dict(p=False, f=w, g=v) for v, w in rot] + [dict(p=False, f=w, h=5) for w in vs]
    yield Seq((Field('p', B, True),), (Group(Field('f', t), Field('g', t, True)), Group(Field('h', t, True), Field('i', B)))), \
        [dict(p=True)] + [dict(f=v) for v in vs] + [dict(f=v, g=w) for v, w in rot] + [dict(p=True, f=v, h=w, i=True) for v, w in rot]
    yield Choice((('p', B), ('f', t), ('q', I3)), None), [('f', v) for v in vs] + [('p', True), ('q', 3)]
    yield Choice((('f', t),), ()), [('f', v) for v in vs]
    yield Choice((('p', B), ('q', I3)), (('f', t), Group(('g', t), ('h', B)))), [(n, v) for n in 'fg' for v in vs] + [('h', False), ('q', 6)]
    for lb, ub, ext in ((None, None, False), (0, 3, False), (2, 2, False), (1, 2, True), (1, None, False), (0, 65536, False)):
        ls = []
        for n in ((0, 1, 2, 3) if not ub or ub > 2 else (0, 1, 2, 3) if ext else (2,)):
            if not ext and not in_size(n, lb, ub):
                continue
            for s in range(min(len(vs), 4)) if n else (0,):
                ls.append([vs[(s + i) % len(vs)] for i in range(n)])
        yield SeqOf(t, lb, ub, ext), ls
        yield Seq((Field('p', B), Field('f', SeqOf(t, lb, ub, ext)), TAIL), None), [dict(p=True, f=l, zz=TAILV) for l in ls]
    yield Seq((Field('p', B), Field('s', Seq((Field('f', t), Field('g', t, True)), ())), TAIL), None), \
        [dict(p=True, s=dict(f=v), zz=TAILV) for v in vs] + [dict(p=True, s=dict(f=v, g=w), zz=TAILV) for v, w in rot]
    yield Seq((Field('p', B), Field('c', Choice((('a', B), ('f', t)), ())), Field('l', SeqOf(t, 0, 3), True), TAIL), None), \
        [dict(p=True, c=('f', v), zz=TAILV) for v in vs] + [dict(p=True, c=('f', v), l=[w, v], zz=TAILV) for v, w in rot]


def mix_pair(a, b):
    va, vb = mix_vals(a, 3), mix_vals(b, 3)
    n = max(len(va), len(vb))
    yield Seq((Field('p', B), Field('f', a), Field('g', b), TAIL), None), [dict(p=True, f=va[i % len(va)], g=vb[i % len(vb)], zz=TAILV) for i in range(n)]
    yield Seq((Field('f', a, True), Field('g', b, True)), ()), [dict(f=va[-1], g=vb[-1]), dict(g=vb[0])]


def mix_payloads(pairs=True):
    out = [('mix.%d' % i, ('mix', i)) for i in range(len(MIX))]
    if pairs:
        out += [('pair.%d' % i, ('pair', i)) for i in range(len(MIX))]
    return out


def con_payloads(tier, mix=True):
    out = []
    sh = seq_shapes(tier)
    for i, c in enumerate(chunks(sh, 60 if tier == 'quick' else 120)):
        out.append(('seq.shapes.%d' % i, ('shapes', tuple(c))))
    l1, l2, l3 = NESTED(tier)
    for d, l, n in ((1, l1, 40), (2, l2, 40), (3, l3, 100)):
        for i, c in enumerate(chunks(l, n)):
            out.append(('nest%d.%d' % (d, i), ('types', tuple(c))))
    nb = len(list(big_types()))
    for i, c in enumerate(chunks(range(nb), 20)):
        out.append(('big.%d' % i, ('big', c[0], c[-1] + 1)))
    if mix:
        out += mix_payloads(mix != 'single')
    return out


CAP = 400


def spread(vs, cap=CAP):
    """bound of the value set per nested type: evenly spaced selection when the product is larger than cap"""
    if len(vs) <= cap:
        return vs
    step = len(vs) / float(cap)
    return [vs[int(i * step)] for i in range(cap)]


def cap_vals(t):
    return spread(vals(t), 24)


def expand_con(p):
    k = p[0]
    if k == 'shapes':
        for s in p[1]:
            t = shape_type(s)
            yield t, list(shape_values(t))
    elif k == 'types':
        for t in p[1]:
            if t[0] == 'Seq':
                yield t, spread(list(seq_values(t, cap_vals)), 60)
            elif t[0] == 'Choice':
                yield t, spread(vals(t), 60)
            else:
                yield t, spread(vals(t), 60)
    elif k == 'big':
        for i, (t, vs) in enumerate(big_types()):
            if p[1] <= i < p[2]:
                yield t, vs
    elif k == 'mix':
        for tv in mix_place(MIX[p[1]]):
            yield tv
    elif k == 'pair':
        for b in MIX:
            for tv in mix_pair(MIX[p[1]], b):
                yield tv
    else:
        raise AssertionError(k)
