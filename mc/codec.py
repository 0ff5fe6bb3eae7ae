"""C01..C04 common: replay every trace of the model against encode()/decode()."""
from . import model as M
from . import domains as D
from . import lib as L


def short(x):
    try:
        s = repr(x)
    except ValueError:                     # an integer of more than 4300 digits
        s = '<%s with a huge number>' % type(x).__name__
    return s if len(s) <= 300 else s[:200] + '...(%d chars)' % len(s)


def count_states(ctx, t, w):
    """the model's run: one state per distinct (type, emitted prefix), one transition per field"""
    full = w.value()
    ctx.transitions += len(w.cuts)
    for c in w.cuts:
        ctx.states.add(hash((c, full[:c])))


def ref(t, v):
    """model encoding, or None when the model rejects / does not define it"""
    try:
        return M.encode_w(t, v)
    except M.DontCare:
        return None


def sweep(pairs, offs, ctx, one):
    for t, vs in pairs:
        for k in (None,) + tuple(offs):
            tt = t if k is None else D.at_offset(t, k)
            try:
                c = L.cls_of(tt)
            except Exception as e:
                ctx.fail('cls|%r' % (tt,), 'type %s cannot be declared: %s: %s' % (short(tt), type(e).__name__, e),
                         type=repr(tt))
                continue
            for v in vs:
                vv = v if k is None else D.val_at_offset(v, k)
                one(tt, vv, c, ctx)
                if ctx.cut():
                    return
            L._cache.pop(tt, None)
            ctx.flush_states()


def check_encode(t, v, c, ctx):
    try:
        w = M.encode_w(t, v)
    except (M.DontCare, M.Reject):
        return
    want = M.tobytes(w.value())
    count_states(ctx, t, w)
    ctx.traces += 1
    try:
        got = L.encode(L.make(t, v, c))
    except Exception as e:
        ctx.fail('enc|%r|%r' % (t, v), 'encode of %s value %s raised %s: %s (expected %s)' % (
            short(t), short(v), type(e).__name__, str(e)[:200], short(want.hex())), type=repr(t), value=repr(v), kind='encode')
        return
    ctx.outcome(got)
    if got != want:
        ctx.fail('enc|%r|%r' % (t, v), 'encode of %s value %s gave %s, X.691 says %s' % (
            short(t), short(v), short(got.hex() if isinstance(got, bytes) else got), short(want.hex())), type=repr(t), value=repr(v), kind='encode')
    elif ctx.sample is None and len(want) > 1:
        ctx.sample = {'type': short(t), 'value': short(v), 'bytes': short(want.hex())}
    for how, f in (L.other_ways(t, v, c) if got == want and len(want) < 400 else ()):
        try:
            got2 = L.encode(f())
        except Exception as e:
            got2 = '%s: %s' % (type(e).__name__, str(e)[:200])
        if got2 != want:
            ctx.fail('enc|%r|%r' % (t, v), 'encode of %s value %s, given as %s, gave %s, X.691 says %s' % (
                short(t), short(v), how, short(got2.hex() if isinstance(got2, bytes) else got2), short(want.hex())), type=repr(t), value=repr(v), kind=how)
    if t[0] in ('Seq', 'SeqOf', 'Choice'):
        # the same value, filled in place with plain Python values
        try:
            got2 = L.encode(L.fill(t, v, c))
        except Exception as e:
            got2 = '%s: %s' % (type(e).__name__, str(e)[:200])
        if got2 != want and got == want:
            ctx.fail('enc|%r|%r' % (t, v), 'encode of %s value %s, filled in place with plain values, gave %s, X.691 says %s' % (
                short(t), short(v), short(got2.hex() if isinstance(got2, bytes) else got2), short(want.hex())), type=repr(t), value=repr(v), kind='fill')


def check_roundtrip(t, v, c, ctx):
    try:
        w = M.encode_w(t, v)
    except (M.DontCare, M.Reject):
        return
    count_states(ctx, t, w)
    ctx.traces += 1
    want = M.norm(t, v)
    try:
        b = L.encode(L.make(t, v, c))
    except Exception as e:
        ctx.fail('rt|%r|%r' % (t, v), 'encode of %s value %s raised %s: %s' % (
            short(t), short(v), type(e).__name__, str(e)[:200]), type=repr(t), value=repr(v), kind='roundtrip')
        return
    try:
        o = L.decode(b, asn1Spec=c())
        got = L.read(t, o)
    except Exception as e:
        ctx.fail('rt|%r|%r' % (t, v), 'decode(encode(v)) of %s value %s (bytes %s) raised %s: %s' % (
            short(t), short(v), short(b.hex()), type(e).__name__, str(e)[:200]), type=repr(t), value=repr(v), kind='roundtrip')
        return
    ctx.outcome(b)
    if got != want:
        ctx.fail('rt|%r|%r' % (t, v), 'decode(encode(v)) of %s: v=%s, bytes %s, decoded %s' % (
            short(t), short(v), short(b.hex()), short(got)), type=repr(t), value=repr(v), kind='roundtrip')
        return
    try:
        again = L.encode(o)
    except Exception as e:
        again = '%s: %s' % (type(e).__name__, e)
    if again != b:
        ctx.fail('rt|%r|%r' % (t, v), 're-encoding the decoded value of %s: v=%s, first %s, then %s' % (
            short(t), short(v), short(b.hex()), short(again)), type=repr(t), value=repr(v), kind='roundtrip')
    elif ctx.sample is None and len(b) > 1:
        ctx.sample = {'type': short(t), 'value': short(v), 'bytes': short(b.hex())}
