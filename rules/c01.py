"""Portable bit packing: every entry point, for each element type in use, against the definition of the layout."""
from fractions import Fraction
from common import *
from c08 import shape
FLOOR = 6
ASSUMPTIONS = ['float zero points are zero (the API asserts it)', 'bit-fields are laid out from the least significant bit, as on every supported (little-endian) target', 'sizes do not overflow int']


def cols(m, t=None):
    if H(m, 'cols?', 2):
        return 1 + H(m, 'cols', 160)
    return [1, 2, 31, 32, 33, 63, 64, 65, 5, 40, 96, 100, 128, 136, 160, 50][H(m, 'cols', 16)]


def rows(m, t=None):
    return 1 + H(m, 'rows', 3)


def elem(n):
    if n == 'float':
        return lambda m, t: Fraction(H(m, repr(t), 17) - 8, 1 + H(m, repr(t) + '/', 8))
    if n == 'int8':
        return lambda m, t: zp(n)(m) + H(m, repr(t), 5) - 2 if -126 <= zp(n)(m) <= 125 and H(m, repr(t) + 'n', 2) else H(m, repr(t), 256) - 128
    return lambda m, t: [0, 1, 255, 127, 128, 2][H(m, repr(t), 6)]


def zp(n):
    if n == 'int8':
        return lambda m, t=None: H(m, 'zp', 280) - 140 if H(m, 'zp?', 3) == 0 else [0, 1, -1, -128, -127, 127, 128, -129, 5, 100, 300, 126][H(m, 'zp', 12)]
    return lambda m, t=None: [1, 0, 255, 256, 128, 2, -3, 1][H(m, 'zp', 8)]


def check(k):
    tu = k.spec('bitpack.cc')
    dims = [lambda m, t, i=i: 1 + H(m, 'd%d' % i, 3) for i in range(3)]
    sh = [(r'n_$', lambda m, t: nd(m), None)] + [r for n in range(1, 5) for r in at(n)]
    for n in ('float', 'int8', 'uint8'):
        base = [(r'^rows', rows, None), (r'^cols', cols, None), (r'^zp', zp(n), None), (r'^in\b', elem(n), None)]
        agree(k, 'matrix-' + n, 'packing a matrix sets exactly the bits of the elements below the zero point (%s)' % n, tu, k.fn(tu, 'spec::code_matrix_' + n), k.fn(tu, 'spec::matrix_' + n),
              ['in', 'rows', 'cols', 'out', 'zp'], rules=base, n=3)
        agree(k, 'tensor-' + n, 'packing a tensor packs its last dimension (%s)' % n, tu, k.fn(tu, 'spec::code_tensor_' + n), k.fn(tu, 'spec::tensor_' + n), ['shape', 'in', 'zp', 'out'], rules=base + sh, n=2)
    for n in ('float', 'int8', 'bool'):
        agree(k, 'unpack-' + n, 'unpacking selects the value of each bit (%s)' % n, tu, k.fn(tu, 'spec::code_unpack_' + n), k.fn(tu, 'spec::unpack_' + n), ['in', 'rows', 'cols', 'out', 'zero', 'one'],
              rules=[(r'^rows', rows, None), (r'^cols', cols, None), (r'^in\b', lambda m, t: H(m, repr(t), 1 << 32) - (1 << 31), None)])
    agree(k, 'unpack-default', 'a clear bit unpacks to +1 and a set bit to -1 by default', tu, k.fn(tu, 'spec::code_unpack_default'), k.fn(tu, 'spec::unpack_default'), ['in', 'rows', 'cols', 'out'],
          rules=[(r'^rows', rows, None), (r'^cols', cols, None), (r'^in\b', lambda m, t: H(m, repr(t), 1 << 32) - (1 << 31), None)])
    for n, a in (('size', ['n']), ('matrix_size', ['rows', 'cols']), ('tensor_size', ['shape']), ('rank', ['shape']), ('dim', ['shape', 'i'])):
        agree(k, 'packed-' + n, 'packed sizes round the channel count up to whole words', tu, k.fn(tu, 'spec::code_packed_' + n), k.fn(tu, 'spec::packed_' + n), a,
              rules=[(r'^n$', 0, 200), (r'^i$', lambda m, t: H(m, 'i', nd(m)), None), (r'^rows', rows, None), (r'^cols', cols, None)] + sh)


def nd(m):
    return 1 + H(m, 'nd', 4)


def at(n):
    """dimension n-1 of the shape: the last one is the channel count"""
    def f(m, t):
        return cols(m) if n == nd(m) else 1 + H(m, 'dim%d' % n, 2)
    i = n - 1
    return [(r'^shape\b.*(\[%d\]|, *%d\))$' % (i, i) if i else r'^shape\b.*(p_|p_\[0\]|, *0\))$', f, None)]
