"""Extension: peers that know different numbers of extension additions understand each other."""
import itertools
from .. import domains as D, codec as K, model as M, lib as L
from ..model import *        # noqa
PROPERTY = 'C07'
RULE = ('for every extension list (additions, then groups) and every pair of versions (prefixes of that list) the message of one '
        'version is decoded with the other version: the components both know must come out equal, unknown additions must be '
        'skipped without disturbing what follows; unknown ENUMERATED / CHOICE extension values must be refused')

B, I3, I8, OV, IU = D.B, D.I3, D.I8, D.OV, D.IU
ASSUMPTIONS = ['the model (mc/model.py) is written from X.680 / X.691 alone and never imports the library',
               'lengths of 16384 and more (fragmentation) are outside']


def BOUNDS(tier):
    return ('root of 0..2 components, extension lists up to %d additions followed by up to %d groups, every presence subset, every '
            'pair of versions, bare and followed by a sibling component, and as CHOICE alternative / list element' % ((3, 2) if tier == 'quick' else (4, 3)))


def ext_lists(tier):
    na, ng = (3, 2) if tier == 'quick' else (4, 3)
    adds = [''.join(x) for n in range(na + 1) for x in itertools.product('mod', repeat=n)]
    gs = [()] + [x for n in range(1, ng + 1) for x in itertools.product(('o', 'mo', 'om') if n > 1 else ('o', 'mo', 'om', 'dm', 'md'), repeat=n)]
    for a in adds:
        for g in gs:
            if 1 <= len(a) + len(g) and (tier == 'thorough' or len(a) + len(g) <= 4):
                yield a, g


def items(tier):
    ls = list(ext_lists(tier))
    out = [('seq.%d' % i, ('seq', tuple(c))) for i, c in enumerate(D.chunks(ls, 6 if tier == 'quick' else 10))]
    out += [('many.%d' % n, ('many', n)) for n in (7, 8, 9, 15, 16, 17, 33, 63, 64)]
    out += [('mix.%d' % i, ('mix', i)) for i in range(len(D.MIX))]
    out += [('known.%d' % n, ('known', n)) for n in (1, 2, 3, 4, 5)]
    out += [('enum', ('enum',)), ('choice', ('choice',)), ('big', ('big',))]
    return out


def versions(ext):
    """every prefix of the extension list that keeps additions before groups (textual versions)"""
    return [tuple(ext[:n]) for n in range(len(ext) + 1)]


def wraps(t):
    yield 'bare', t, (lambda v: v)
    yield 'field', Seq((Field('p', B), Field('xx', t), D.TAIL), None), (lambda v: {'p': True, 'xx': v, 'zz': D.TAILV})
    yield 'list', SeqOf(t, 0, 3), (lambda v: [v, v])
    yield 'alt', Choice((('n', B), ('xx', t)), ()), (lambda v: ('xx', v))
    yield 'ext', Seq((Field('p', B),), (Field('xx', t, True), Field('yy', I8, True))), (lambda v: {'p': False, 'xx': v, 'yy': 77})


def project(t, v):
    if t[0] != 'Seq':
        return M.norm(t, v)
    names = {f.name for f in fields(t)}
    return M.norm(t, {n: x for n, x in v.items() if n in names})


def cross(ta, tb, vs, ctx, tag):
    """messages of ta decoded with tb"""
    wa, wb = list(wraps(ta)), list(wraps(tb))
    for (name, A, fa), (_, Bt, fb) in zip(wa, wb):
        ca, cb = L.cls_of(A), L.cls_of(Bt)
        spec = cb()
        for v in vs:
            va = fa(v)
            try:
                w = M.encode_w(A, va)
            except (M.Reject, M.DontCare):
                continue
            data = M.tobytes(w.value())
            want = M.norm(Bt, fb(project(tb, v)))
            try:
                if M.decode(Bt, data)[0] != want:
                    raise AssertionError('model disagrees with itself: %r %r %r' % (A, Bt, va))
            except M.DontCare:
                continue
            ctx.traces += 1
            K.count_states(ctx, A, w)
            try:
                lib_bytes = L.encode(L.make(A, va, ca))
                got = L.read(Bt, L.decode(lib_bytes, asn1Spec=spec))
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, str(e)[:200])
                lib_bytes = data
            ctx.outcome(repr(got))
            if got != want:
                ctx.fail('ver|%r|%r|%r' % (A, Bt, va), '%s/%s: message %s of version %s value %s decoded by version %s gives %s, expected %s' % (
                    tag, name, K.short(lib_bytes.hex()), K.short(A), K.short(va), K.short(Bt), K.short(got), K.short(want)),
                    sender=repr(A), receiver=repr(Bt), value=repr(va))
            elif ctx.sample is None and ta != tb and len(data) > 3:
                ctx.sample = {'sender': K.short(A), 'receiver': K.short(Bt), 'value': K.short(va), 'bytes': K.short(data.hex())}
            if ctx.cut():
                return
        L._cache.clear()
    ctx.flush_states()


def deep_project(t, v):
    if t[0] == 'Seq':
        ft = {f.name: f.type for f in fields(t)}
        return {n: deep_project(ft[n], x) for n, x in v.items() if n in ft}
    if t[0] == 'SeqOf':
        return [deep_project(t.elem, x) for x in v]
    return v


def nested(A, Bt, ctx, v):
    w = M.encode_w(A, v)
    want = M.norm(Bt, deep_project(Bt, v))
    ctx.traces += 1
    K.count_states(ctx, A, w)
    try:
        got = L.read(Bt, L.decode(M.tobytes(w.value()), asn1Spec=L.cls_of(Bt)()))
    except Exception as e:
        got = '%s: %s' % (type(e).__name__, str(e)[:200])
    if got != want:
        ctx.fail('ver|%r|%r|%r' % (A, Bt, v), 'nested: value %s of %s decoded by version %s gives %s, expected %s' % (
            K.short(v), K.short(A), K.short(Bt), K.short(got), K.short(want)), sender=repr(A), receiver=repr(Bt), value=repr(v))


def refuse(ta, tb, v, ctx, tag):
    for (name, A, fa), (_, Bt, fb) in zip(wraps(ta), wraps(tb)):
        try:
            w = M.encode_w(A, fa(v))
        except (M.Reject, M.DontCare):
            continue
        data = M.tobytes(w.value())
        try:
            M.decode(Bt, data)
            raise AssertionError('model accepts')
        except M.Malformed:
            pass
        K.count_states(ctx, A, w)
        ctx.traces += 1
        try:
            got = L.read(Bt, L.decode(data, asn1Spec=L.cls_of(Bt)()))
        except Exception as e:
            ctx.outcome(type(e).__name__)
            continue
        ctx.fail('unk|%r|%r|%r' % (A, Bt, v), '%s/%s: %s with the unknown value %s was decoded as %s' % (
            tag, name, data.hex(), K.short(v), K.short(got)), sender=repr(A), receiver=repr(Bt), value=repr(v))


def run(p, ctx):
    if p[0] == 'seq':
        for a, g in p[1]:
            for r in ('', 'm', 'mo'):
                full = D.shape_type((r, (a, g)))
                vers = versions(full.ext)
                for i, ea in enumerate(vers):
                    ta = Seq(full.root, ea)
                    vs = list(D.seq_values(ta, D.one_val))
                    for j, eb in enumerate(vers):
                        if i != j:
                            cross(ta, Seq(full.root, eb), vs, ctx, 'SEQUENCE')
                            if ctx.cut():
                                return
    elif p[0] == 'many':
        n = p[1]
        for mk in (lambda f: f, lambda f: Group(f)):
            fs = tuple(mk(Field('x%d' % i, I3 if i % 2 else I8, True)) for i in range(n))
            vs = [{'r': True}] + [{'r': True, 'x%d' % i: 5} for i in range(n)] + [dict([('r', False)] + [('x%d' % i, 3) for i in range(n)])] + \
                 [{'r': True, 'x0': 1, 'x%d' % (n - 1): 6}]
            full = Seq((Field('r', B),), fs)
            for m in sorted({0, 1, 2, n // 2, n - 2, n - 1}):
                other = Seq((Field('r', B),), fs[:m])
                cross(full, other, vs, ctx, 'SEQUENCE')
                cross(other, full, [v for v in vs if set(v) <= {'r'} | {'x%d' % i for i in range(m)}], ctx, 'SEQUENCE')
    elif p[0] == 'big':
        # unknown additions with long open types
        for n in (1, 126, 127, 128, 129, 200, 300, 5000):
            o = bytes((i * 3) & 255 for i in range(n))
            new = Seq((Field('r', B),), (Field('k', I3, True), Field('u', Octs(), True), Field('w', I3, True)))
            for m in (0, 1, 2):
                cross(new, Seq(new.root, new.ext[:m]), [{'r': True, 'u': o}, {'r': True, 'k': 1, 'u': o, 'w': 2}], ctx, 'SEQUENCE')
            newg = Seq((Field('r', B),), (Field('k', I3, True), Group(Field('u', Octs()), Field('q', B, True)), Group(Field('w', I3))))
            for m in (0, 1, 2):
                cross(newg, Seq(newg.root, newg.ext[:m]), [{'r': True, 'u': o}, {'r': True, 'k': 1, 'u': o, 'q': False, 'w': 2}], ctx, 'SEQUENCE')
    elif p[0] == 'mix':
        # every kind of component as unknown and as known addition
        t = D.MIX[p[1]]
        vs = D.mix_vals(t, 4)
        dflt = t[0] in ('Bool', 'Int', 'Enum', 'Bits', 'Octs')
        new = Seq((Field('r', B),), (Field('k', t, True), Field('u', t, True), Field('d', t, False, vs[-1]) if dflt else Field('d', t, True), Field('w', I3, True)))
        xs = [{'r': True}, {'r': True, 'w': 6}] + [dict(r=True, u=v) for v in vs] + [dict(r=False, k=v, d=vs[0], w=2) for v in vs] + [dict(r=False, u=v, d=v) for v in vs]
        newg = Seq((Field('r', B),), (Field('k', t, True), Group(Field('u', t), Field('q', t, True)), Group(Field('w', I3), Field('x', t, True))))
        ys = [{'r': True, 'k': vs[0]}] + [dict(r=True, u=v) for v in vs] + [dict(r=True, k=v, u=vs[0], q=v) for v in vs] + [dict(r=True, u=v, w=2, x=v) for v in vs]
        for full, zs in ((new, xs), (newg, ys)):
            for m in range(len(full.ext)):
                old = Seq(full.root, full.ext[:m])
                cross(full, old, zs, ctx, 'SEQUENCE')
                names = {f.name for f in fields(old)}
                cross(old, full, [z for z in zs if set(z) <= names], ctx, 'SEQUENCE')
        cnew = Choice((('r', B), ('s', t)), (('k', t), ('u', t), Group(('w', I3), ('x', t))))
        for m in range(3):
            old = Choice(cnew.root, cnew.ext[:m])
            names = [n for n, _ in alternatives(old)]
            for n, ty in alternatives(cnew):
                for v in (vs if ty == t else [D.vals(ty)[0]]):
                    if n in names:
                        cross(cnew, old, [(n, v)], ctx, 'CHOICE')
                        cross(old, cnew, [(n, v)], ctx, 'CHOICE')
                    else:
                        refuse(cnew, old, (n, v), ctx, 'CHOICE')
    elif p[0] == 'known':
        # what both versions know is understood in both directions
        n = p[1]
        r = D.enum_root(n)
        for m in (1, 2, 3, 64, 65, 66, 130):
            x = tuple(('x%d' % i, n + i) for i in range(m))
            for k in sorted({0, 1, m // 2, m - 1}):
                vs = [a for a, _ in r] + [a for a, _ in x[:k]][:2] + [a for a, _ in x[:k]][-2:]
                cross(Enum(r, x), Enum(r, x[:k]), vs, ctx, 'ENUMERATED')
                cross(Enum(r, x[:k]), Enum(r, x), vs, ctx, 'ENUMERATED')
        rc = tuple(('c%d' % i, (B, I3, I8, OV, IU)[i]) for i in range(n))
        for m in (1, 2, 3, 64, 65, 66):
            x = tuple(('x%d' % i, (I8, OV, I3)[i % 3]) for i in range(m))
            for k in sorted({0, 1, m // 2, m - 1}):
                vs = [(a, D.vals(ty)[0]) for a, ty in rc + x[:k][:2] + x[:k][-2:]]
                cross(Choice(rc, x), Choice(rc, x[:k]), vs, ctx, 'CHOICE')
                cross(Choice(rc, x[:k]), Choice(rc, x), vs, ctx, 'CHOICE')
        # two extensible components next to each other, each with unknown additions; extension inside extension
        ia, ib = Seq((Field('a', I3),), (Field('x', I8, True), Field('y', OV, True))), Seq((Field('a', I3),), (Field('x', I8, True), Group(Field('y', OV), Field('z', B, True))))
        for m in range(2):
            for q in range(2):
                oa, ob = Seq(ia.root, ia.ext[:m]), Seq(ib.root, ib.ext[:q])
                A = Seq((Field('s', ia), Field('t', ib, True), Field('l', SeqOf(ia, 0, 2))), (Field('e', ib, True), Field('f', ia, True), Field('h', B, True)))
                for keep in range(4):
                    Bt = Seq((Field('s', oa), Field('t', ob, True), Field('l', SeqOf(oa, 0, 2))), (Field('e', ob, True), Field('f', oa, True), Field('h', B, True))[:keep])
                    sa = [{'a': 1}, {'a': 2, 'x': 7}, {'a': 3, 'y': b'\x01'}, {'a': 4, 'x': 1, 'y': b''}]
                    sb = [{'a': 5}, {'a': 6, 'x': 200}, {'a': 0, 'y': b'\x02', 'z': True}]
                    for v in sa:
                        for w in sb:
                            nested(A, Bt, ctx, dict(s=v, t=w, l=[v, v], e=w, f=v, h=True))
                            nested(A, Bt, ctx, dict(s=v, l=[], f=v))
    elif p[0] == 'enum':
        for n in (1, 2, 3, 4, 5):
            r = D.enum_root(n)
            for m in (1, 2, 3, 64, 65, 66):
                x = tuple(('x%d' % i, n + i) for i in range(m))
                for k in sorted({0, 1, m - 1} & set(range(m))):
                    for q in sorted({k, m - 1}):
                        refuse(Enum(r, x), Enum(r, x[:k]), 'x%d' % q, ctx, 'ENUMERATED')
    elif p[0] == 'choice':
        for n in (1, 2, 3):
            r = tuple(('c%d' % i, (B, I3, I8)[i]) for i in range(n))
            for m in (1, 2, 3, 64, 65, 66):
                x = tuple(('x%d' % i, (I8, OV, I3)[i % 3]) for i in range(m))
                vs = {I8: 5, OV: b'\x01', I3: 4}
                for k in sorted({0, 1, m - 1} & set(range(m))):
                    for q in sorted({k, m - 1}):
                        refuse(Choice(r, x), Choice(r, x[:k]), ('x%d' % q, vs[x[q][1]]), ctx, 'CHOICE')
    else:
        raise AssertionError(p)
