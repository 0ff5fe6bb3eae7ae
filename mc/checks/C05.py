"""Truncation: every strict prefix of a valid message is refused."""
from .. import domains as D, codec as K, model as M, lib as L
PROPERTY = 'C05'
RULE = ('every (type, value) of the primitive and constructed spaces is encoded by the reference model; every strict prefix of that '
        'message (all byte lengths up to 48 bytes; for longer messages the first 16, the last 16 and every length at which a '
        'model field begins or ends, up to 64; above 1000 bytes ten lengths) is given to decode(), which has to raise')
ASSUMPTIONS = ['the model (mc/model.py) is written from X.680 / X.691 alone and never imports the library',
               'lengths of 16384 and more (fragmentation) are outside']


def BOUNDS(tier):
    return 'types and values of domains.prim_payloads / con_payloads (reduced offsets), tier %s' % tier


def items(tier):
    out = [('p.' + l, ('p', p, offs if tier == 'thorough' else ((3,) if offs else ())))
           for l, p, offs in D.prim_payloads(tier) if p[0] not in ('ranges', 'intall') or tier == 'thorough'
           or (p[0] == 'intall' and abs(p[1]) < 1) or (p[0] == 'ranges' and p[1] in (1, 64501))]
    out += [('c.' + l, ('c', p, ())) for l, p in D.con_payloads(tier)]
    return out


def lens(w, n):
    if n <= 48:
        return range(n)
    if n > 1000:
        return sorted({0, 1, 2, 3, 100, 128, 129, n // 2, n - 2, n - 1})
    s = set(range(16)) | set(range(n - 16, n))
    for c in w.cuts[:64]:
        s |= {c // 8, (c + 7) // 8}
    return sorted(x for x in s if 0 <= x < n)


def one(t, v, c, ctx):
    try:
        w = M.encode_w(t, v)
    except (M.DontCare, M.Reject):
        return
    if w.n == 0:
        return
    b = M.tobytes(w.value())
    spec = c()
    for i in lens(w, len(b)):
        ctx.transitions += 1
        ctx.states.add(hash(b[:i]))
        try:
            o = L.decode(b[:i], asn1Spec=spec)
        except Exception as e:
            ctx.outcome(type(e).__name__)
            continue
        try:
            got = L.read(t, o)
        except Exception as e:
            got = '<unreadable: %s>' % e
        ctx.fail('trunc|%r|%r|%d' % (t, v, i), 'decode of the first %d of %d bytes (%s) of %s value %s did not raise but gave %s' % (
            i, len(b), K.short(b[:i].hex()), K.short(t), K.short(v), K.short(got)), type=repr(t), value=repr(v), prefix=i)
        break
    ctx.traces += 1
    if ctx.sample is None and len(b) > 2:
        ctx.sample = {'type': K.short(t), 'value': K.short(v), 'bytes': K.short(b.hex()), 'prefixes': len(list(lens(w, len(b))))}


def thin(t, vs):
    """values: all for short lists, else an evenly spaced 60 (truncation behaviour depends on the field layout)"""
    return vs if len(vs) <= 60 else [vs[int(i * len(vs) / 60.0)] for i in range(60)]


def run(p, ctx):
    kind, pl, offs = p
    pairs = ((t, thin(t, vs)) for t, vs in (D.expand_prim(pl) if kind == 'p' else D.expand_con(pl)))
    K.sweep(pairs, offs, ctx, one)
