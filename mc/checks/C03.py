from .. import domains as D, codec as K
PROPERTY = 'C03'
RULE = ('every (type, value, bit offset) of the bounded space is encoded and decoded by the real library; the decoded value has to equal the original (model normal form) and has to encode to the same bytes again')

ASSUMPTIONS = ['the model (mc/model.py) is written from X.680 / X.691 alone and never imports the library',
               'lengths of 16384 and more (fragmentation) are outside: the library documents no support']


def BOUNDS(tier):
    return ('INTEGER: %d bound pairs with all edge values, every range 1..66000 at its edges, all of +-%d unconstrained; ENUMERATED: every item count up to %d; '
            'BIT STRING %d and OCTET STRING %d size bounds with all lengths up to 40 and edge lengths up to 16383; with and without extension marker; at bit offsets 0..7 (tier %s)' % (
                len(D.INT_BOUNDS), 200000 if tier == 'thorough' else 70000, 299 if tier == 'thorough' else 261, len(D.BIT_BOUNDS), len(D.OCT_BOUNDS), tier))


def items(tier):
    return [(l, (p, offs)) for l, p, offs in D.prim_payloads(tier)]


def run(p, ctx):
    K.sweep(D.expand_prim(p[0]), p[1], ctx, K.check_roundtrip)
