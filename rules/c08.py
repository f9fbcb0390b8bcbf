"""The reference convolution for float, int8 and packed output: the final contents of the output tensor, as a function of parameters, shapes, input and
filter words, are compared with the definition of binary convolution (taps outside the image: plus one, or half the group's channels for zero padding)."""
from common import *
FLOOR = 3
ASSUMPTIONS = ['integers do not overflow', 'the output transform is the one C07 decides']


def G(m):
    return [1, 1, 1, 2, 3][H(m, 'g', 5)]


def D(m):
    return 1 + H(m, 'd', 3)


def shape(dims):
    """rules for the dimensions of a shape argument"""
    out = []
    for nm, ds in dims.items():
        for i, d in enumerate(ds):
            f = d if callable(d) else (lambda m, t, d=d: d)
            out.append((r'^%s\b.*(\[%d\]|, *%d\))$' % (nm, i, i) if i else r'^%s\b.*(p_|p_\[0\]|, *0\))$' % nm, f, None))
        out.append((r'^%s\b.*n_$' % nm, 4, 4))
    return out


R = [(r'^params\.groups', lambda m, t: G(m), None), (r'channels_in', lambda m, t: G(m) * 32 * D(m) if G(m) > 1 else 32 * D(m) - H(m, 'ci', 32), None), (r'stride|dilation', lambda m, t: [1, 1, 2, 3][H(m, repr(t), 4)], None),
     (r'padding_values', 0, 2), (r'padding_type', 0, 2), (r'pad_value', 0, 1)]
COUT = {'bits': lambda m, t: [1, 2, 6, 30, 33, 36][H(m, 'co', 6)], None: lambda m, t: G(m) * (1 + H(m, 'co', 3))}
WORD = [(r'^(in|w)\b', lambda m, t: H(m, repr(t), 1 << 16) - (1 << 15) if H(m, 'neg', 2) else H(m, repr(t), 1 << 16) * 65537 % (1 << 32) - (1 << 31), None)]
TR = [(r'clamp_min', -5, 40), (r'clamp_max', 40, 90), (r'thresholds', 10, 40), (r'multiplier|bias', -6, 6)]


def check(k):
    import c10
    c10.wiring(k, only='kReference')
    tu = k.spec('reference.cc')
    for n, ty in (('float', 'float'), ('int8', 'signed char'), ('bits', 'int')):
        co = lambda m, t: (G(m) * (1 + H(m, 'co', 3)) if n != 'bits' or H(m, 'cb', 2) else G(m) * [11, 16, 17, 32, 33][H(m, 'co', 5)])
        b = lambda m, t: 1 + H(m, 'b', 2)
        dm = lambda s, hi: (lambda m, t: 1 + H(m, s, hi))
        small = lambda s, hi: (lambda m, t: 1 if n == 'bits' and co(m, t) > 8 and s[0] in 'o' else 1 + H(m, s, hi))
        od = lambda m, t: (co(m, t) + 31) // 32 if n == 'bits' else co(m, t)
        f = opt(k, tu, 'BConv2DReference', lambda f: re.search(r'OutputTransform<%s,' % ty, f['params'][5]['type'] if isinstance(f['params'][5], dict) and 'type' in f['params'][5] else f.get('t', '')) is not None
                or (', %s' % ty) in f.get('t', ''))
        agree(k, 'reference-' + n, 'every %s output element is the transform of its popcount accumulator, and nothing else is written' % n, tu, f, k.fn(tu, 'spec::conv_' + n),
              ['params', 'ishape', 'in', 'wshape', 'w', 't', 'oshape', 'out'],
              rules=R + shape({'ishape': [b, dm('ih', 4), dm('iw', 4), lambda m, t: G(m) * D(m)], 'wshape': [co, dm('fh', 3), dm('fw', 3), lambda m, t: D(m)], 'oshape': [b, small('oh', 3), small('ow', 3), od]}) + WORD + TR)
