"""Value graph of the threshold computation compared with the definition of the packed bit: for every channel the chosen threshold must separate exactly the
accumulator values whose activated, multiplied, biased result is negative, whatever the sign of the multiplier and the activation; thresholds are compared by
the bits they produce for every accumulator value a filter of the sampled shape can reach, so sentinels may be chosen freely."""
from common import *
FLOOR = 2
ASSUMPTIONS = ['floats are reals', 'multipliers and biases are finite', 'getValues enumerates the elements in order']
ACTS = ['NONE', 'RELU', 'RELU6', 'RELU_N1_TO_1']


def dim(i):
    return lambda m, t: 1 + H(m, 'dim%d' % i, (3, 3, 4)[i - 1])


RULES = [(r'getValue,fused', ACTS, None), (r'getShape.*, *1\)$', dim(1), None), (r'getShape.*, *2\)$', dim(2), None), (r'getShape.*, *3\)$', dim(3), None),
         (r'getNumElements|size', 1, 3), (r'getValues.*multiplier', lambda m, t: Fraction(H(m, repr(t), 13) - 6, [1, 1, 2, 3][H(m, 'd' + repr(t), 4)]), None),
         (r'getValues.*bias', lambda m, t: Fraction(H(m, repr(t), 81) - 40, [1, 2, 4][H(m, 'd' + repr(t), 3)] * [1, 1, 8][H(m, 'e' + repr(t), 3)]), None)]


def bits(v, m):
    """thresholds stand for the bits they make of every reachable accumulator value"""
    a = (1 + H(m, 'dim1', 3)) * (1 + H(m, 'dim2', 3)) * (1 + H(m, 'dim3', 4))
    if isinstance(v, tuple):
        if v[:2] == ('call', 'mlir::IntegerAttr::get') and len(v) == 4 and isinstance(v[3], (int, Fraction)) and not isinstance(v[3], bool):
            return ('bits',) + tuple(1 if x > v[3] else 0 for x in range(a + 1))
        return tuple(bits(x, m) for x in v)
    return v


def check(k):
    tu = k.spec('optimize.cc', 'mlir')
    agree(k, 'thresholds', 'the packed bit is the sign of the fused output for every reachable accumulator value', tu, opt(k, tu, 'TFL::GetBitpackedOutputThresholds'),
          k.fn(tu, 'spec::thresholds'), ['builder', 'filter', 'multiplier', 'bias', 'fused'], rules=RULES, retmap=bits, n=5)
    agree(k, 'signs', 'filters are multiplied by the sign of their channel\'s multiplier, broadcast over the other dimensions', tu, opt(k, tu, 'TFL::GetSignsOfVectorAndBroadcast4D'),
          k.fn(tu, 'spec::signs'), ['vec'], rules=[(r'getShape.*, *0\)$', 1, 4), (r'getNumElements|size', 1, 4), (r'getValues', lambda m, t: Fraction([-6, -2, -1, 1, 2, 7][H(m, repr(t), 6)], 2), None)])
