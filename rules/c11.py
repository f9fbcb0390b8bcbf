"""The indirect convolution: packed weights, indirection table and portable micro-kernels."""
from common import *
from c08 import shape, TR
FLOOR = 3
ASSUMPTIONS = ['integers do not overflow']


def G(m):
    return [1, 1, 2, 3][H(m, 'g', 4)]


def BD(m):
    return [1, 1, 2, 4][H(m, 'bd', 4)]


def D(m):
    return BD(m) * (1 + H(m, 'd', 3))


def OC(m):
    return 1 + H(m, 'oc', 11) if H(m, 'oc1', 3) else [16, 17, 15, 32, 33, 5, 20, 30][H(m, 'oc2', 8)]


FH = lambda m: 1 + H(m, 'fh', 3)
FW = lambda m: 1 + H(m, 'fw', 3)
PK = [(r'block_size_depth', lambda m, t: BD(m), None), (r'block_size_output', lambda m, t: [4, 8][H(m, 'bo', 2)], None), (r'block_size_pix', lambda m, t: [2, 4, 3][H(m, 'bp', 3)], None),
      (r'k\.groups', lambda m, t: G(m), None), (r'k\.input_depth', lambda m, t: G(m) * D(m), None), (r'k\.output_channels', lambda m, t: G(m) * OC(m), None), (r'k\.filter_size', lambda m, t: FH(m) * FW(m), None),
      (r'filter_height', lambda m, t: FH(m), None), (r'filter_width', lambda m, t: FW(m), None), (r'stride|dilation', 1, 2), (r'padding_values', 0, 2)]


def check(k):
    import c10
    c10.wiring(k, only='Indirect')
    tu = k.spec('indirect.cc')
    pk = mk('sym', 'k')
    agree(k, 'pack-weights', 'each filter word goes to its slot of the packed weights, which hold every slot', tu, opt(k, tu, 'Kernel::PackWeights', lambda f: 'spec' not in f['q']),
          k.fn(tu, 'spec::PW::PackWeights'), ['w'], this=pk, rules=PK, n=3)
    agree(k, 'indirection', 'each entry of the indirection table points at the input pixel under its tap, or at the zero row outside the image', tu,
          opt(k, tu, 'Kernel::FillIndirectionBuffer', lambda f: 'spec' not in f['q']), k.fn(tu, 'spec::PW::FillIndirectionBuffer'), ['params', 'ishape', 'oshape', 'in'], this=pk,
          rules=PK + [(r'num_output', lambda m, t: DI(m, 'b', 2) * DI(m, 'oh', 3) * DI(m, 'ow', 3), None)] + shape({'ishape': [lambda m, t: DI(m, 'b', 2), lambda m, t: DI(m, 'ih', 4), lambda m, t: DI(m, 'iw', 4), lambda m, t: G(m) * D(m)],
                            'oshape': [lambda m, t: DI(m, 'b', 2), lambda m, t: DI(m, 'oh', 3), lambda m, t: DI(m, 'ow', 3), lambda m, t: G(m) * OC(m)]}), n=3)
    for n, ty in (('float', 'float'), ('int8', 'signed char'), ('bits', 'int')):
        agree(k, 'micro-' + n, 'the portable micro-kernel writes the transform of every accumulator once, at its own index (%s)' % n, tu,
              opt(k, tu, 'Run', lambda f: 'Kernel4x2Portable<%s>' % ty in f['q']), k.fn(tu, 'spec::run_' + n), ['start', 'end', 'out'], snames=['k', 'start', 'end', 'out'], this=pk,
              rules=[(r'^start', lambda m, t: 2 * H(m, 'st', 2), None), (r'^end', lambda m, t: 2 * H(m, 'st', 2) + 1 + H(m, 'end', 4), None)] + PK + TR, n=2, known=(re.compile('^pcast:'),))

        f = opt(k, tu, 'BConv2DOptimizedIndirectBGEMM', lambda f: (', %s>' % ty) in f['t'])
        agree(k, 'conv-' + n, 'the indirect convolution clears padding bits, runs its kernel over all output pixels and corrects zero padding for %s output' % n, tu, f, k.fn(tu, 'spec::conv_' + n),
              ['k', 'params', 'ishape', 'oshape', 'out', 'pbuf', 'pad_value'], calls=CALLS, opaque=CALLS, callmap=lambda c: (re.sub(r'<.*', '', c[0].split('::')[-1]), c[1], c[2]),
              rules=[(r'padding_type', 0, 2), (r'pad_value', 0, 1), (r'output_channels', lambda m, t: CO(m), None), (r'num_output', lambda m, t: DI(m, 'b', 2) * DI(m, 'oh', 3) * DI(m, 'ow', 3), None)] + PK + SH, n=2)
        agree(k, 'fields-' + n, 'a kernel object keeps the sizes of its problem (%s)' % n, tu, k.fn(tu, 'spec::built_' + n), k.fn(tu, 'spec::fields'), ['params', 'ishape', 'oshape', 't'],
              snames=['params', 'ishape', 'oshape'])


CALLS = r'ApplyCorrection|Kernel::Run'
SH = shape({'ishape': [lambda m, t: DI(m, 'b', 2), lambda m, t: DI(m, 'ih', 4), lambda m, t: DI(m, 'iw', 4), lambda m, t: G(m) * D(m)],
            'oshape': [lambda m, t: DI(m, 'b', 2), lambda m, t: DI(m, 'oh', 3), lambda m, t: DI(m, 'ow', 3), lambda m, t: G(m) * OC(m)]})


def CO(m):
    return [1, 5, 16, 31, 33, 48, 64, 63, 65][H(m, 'co', 9)]


def DI(m, s, n):
    return 1 + H(m, s, n)
