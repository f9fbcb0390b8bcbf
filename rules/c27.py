"""Value graphs of the conversion-time packing and unpacking of constants compared with the runtime's bit layout, element by element, for every 4-D shape;
the filter predicate that guards the packing of weights; constants of other ranks and types are left alone."""
from common import *
import terms as tm
FLOOR = 3
ASSUMPTIONS = ['getValues enumerates the elements in order', 'the number of elements is the product of the dimensions', 'integers do not overflow']


def C(m):
    return [1, 31, 32, 33, 64, 5, 40, 65][H(m, 'c', 8)]


def dim(i):
    return lambda m, t: C(m) if i == 3 else 1 + H(m, 'd%d' % i, 2)


def bad(i):
    """now and then an operand that does not fit the result"""
    return lambda m, t: dim(i)(m, t) + (H(m, 'bad%d' % i, 12) == 0)


def total(m, words=False):
    n = 1
    for i in range(4):
        d = dim(i)(m, None)
        n *= (d + 31) // 32 if words and i == 3 else d
    return n


def size(m, t):
    return (4, 4, 4, 4, 4, 1, 2, 5)[H(m, 'rank' + str(t), 8)]


def folds(k):
    # dimensions of static shapes are not negative
    for s in (mk('sym', 'type'), mk('call', '.getType', mk('sym', 'x'))):
        for i in range(4):
            tm.NN.add(mk('sel', mk('fld', mk('call', '.getShape', s), '#d'), c(i)))
    tu = k.spec('fold.cc', 'mlir')
    known = (re.compile(r'getNumElements'), re.compile(r'^call:\.is'))
    R = [(r'getShape.*#d\)?$', dim(0), None)] + [(r'getShape.*, *%d\)$' % i, dim(i), None) for i in range(3)] + [(r'getShape.*#n', size, None)]
    agree(k, 'pack', 'constants are packed bit for bit into the runtime layout; only 4D float constants are', tu, opt(k, tu, 'TFL::Bitpack'), k.fn(tu, 'spec::Bitpack'), ['builder', 'x'],
          rules=R + [(r'getShape.*, *3\)$', dim(3), None), (r'getNumElements', lambda m, t: total(m), None), (r'getValues', lambda m, t: H(m, repr(t), 7) - 3, None), (r'isF32', 1, 1, 0, 0, 10), (r'^isnull', 0, 0, 1, 1, 8), (r'null|is', 0, 1)],
          known=known, n=2)
    agree(k, 'unpack', 'constants are unpacked bit for bit to plus and minus one of the result type', tu, opt(k, tu, 'TFL::Unpack'), k.fn(tu, 'spec::Unpack'), ['x', 'type'],
          rules=[(r'getShape.*getType,x.*, *%d\)$' % i, bad(i), None) for i in range(3)] + R + [(r'getShape,type.*, *3\)$', dim(3), None), (r'getShape.*, *3\)$', lambda m, t: (C(m) + 31) // 32 + (H(m, 'bad', 8) == 0), None),
                     (r'getNumElements', lambda m, t: total(m, True), None), (r'getValues', lambda m, t: H(m, repr(t), 1 << 32) - (1 << 31), None), (r'hasStatic', 1, 1, 0, 0, 8),
                     (r'getScale', one_of('sc', 1, Fraction(1, 2), Fraction(1, 4), Fraction(1, 16), 2, Fraction(1, 128), Fraction(1, 200)), None), (r'getZeroPoint', one_of('zp', 0, -1, 5, -128, -127, 127, 100), None),
                     (r'^isnull', 0, 0, 1, 1, 8), (r'null|is', 0, 1)], known=known, n=3)


def check(k):
    folds(k)
    tu = k.spec('weights.cc', 'mlir')
    agree(k, 'filter', 'exactly 4D float constants count as filters to pack', tu, opt(k, tu, 'TFL::IsConv2DFilter'), k.fn(tu, 'spec::filter'), ['filter'],
          rules=[(r'^isnull', 0, 0, 1, 1, 40), (r'getShape.*#n', 3, 5), (r'is', 0, 1)], default=(0, 1))
