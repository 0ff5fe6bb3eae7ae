from .. import domains as D, codec as K
PROPERTY = 'C04'
RULE = ('every (type, value) of the bounded constructed space is encoded and decoded by the real library; the decoded value has to equal the original (model normal form, defaults filled in) and has to encode to the same bytes again')

ASSUMPTIONS = ['the model (mc/model.py) is written from X.680 / X.691 alone and never imports the library',
               'lengths of 16384 and more (fragmentation) are outside: the library documents no support']


def BOUNDS(tier):
    return ('all SEQUENCE shapes (%d), every presence subset; CHOICE and SEQUENCE OF families; all nestings of depth 1, 2%s' % (
        len(D.seq_shapes(tier)), ' and 3' if tier == 'thorough' else ''))


def items(tier):
    return [(l, p) for l, p in D.con_payloads(tier)]


def run(p, ctx):
    K.sweep(D.expand_con(p), (), ctx, K.check_roundtrip)
