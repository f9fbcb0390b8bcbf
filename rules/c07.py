"""The fused output transform: (1) the value graphs of the three transforms (float, int8, bit) equal clamp, scale and bias of the doubled
accumulator, rounding and saturation, and the threshold comparison; (2) the setup performed by evaluation derives multiplier, bias and
clamps from the filter volume per group, the fused activation and the operands, and hands exactly those to the kernel."""
import re
from fractions import Fraction
from common import *
from c04 import REG, KT
from c06 import OPAQUE
FLOOR = 9
ASSUMPTIONS = ['floating-point arithmetic is compared as real arithmetic (rounding of intermediate results is not modelled; ties of the int8 rounding are free)',
               'CalculateActivationRange behaves as documented by TFLite']


def frac(name, lo, hi):
    return lambda m, tok: Fraction(lo + H(m, name + repr(tok), hi - lo + 1), 7)


T = [(r'clamp_min', -10, 0), (r'clamp_max', 0, 10), (r'acc', -9, 9), (r'thresholds', -9, 9), (r'multiplier', frac('m', -90, 90), None), (r'bias', frac('b', -500, 500), None)]
OT = [(r'isnull.*indirect_bgemm_kernel', 0, 1), (r'GetOutput,context,node,0\)\.type', one_of('t', 1, 9, 2, 4), None), (r'params\.groups', one_of('g', 1, 2, 3), None), (r'params\.channels_in', lambda m, t: [1, 2, 3][H(m, 'g', 3)] * (1 + H(m, 'ci', 9)), None),
      (r'outarg\(.*,1\)', one_of('lo', -1, 0, -(1 << 31), -20), None), (r'outarg\(.*,2\)', one_of('hi', 1, 6, (1 << 31) - 1, 20), None),
      (r'\.scale', lambda m, t: Fraction(1 + H(m, 'sc', 9), 4), None), (r'zero_point', -9, 9), (r'GetTensorData<float>', frac('d', -90, 90), None), (r'padding_type', 0, 2), (r'pad_value', 0, 1)]


def kernel_transform(c):
    """of the kernel calls keep the output transform handed over"""
    if 'CacheCorrection' in c[0]:
        return c
    for a in c[2]:
        s = ot(a)
        if s is not None:
            return (re.sub('<.*', '', c[0]), None, (s,))
    return None


def ot(a):
    if isinstance(a, tuple) and len(a) == 3 and a[0] == 'obj' and a[2] and {n for n, _ in a[2]} <= {'clamp_min', 'clamp_max', 'multiplier', 'bias', 'thresholds'}:
        return a
    return None


def check(k):
    for mode in ('host', 'arm32'):
        transforms(k, k.spec('output_transform.cc', mode), '' if mode == 'host' else '-arm32')
    setup(k)


def transforms(k, tu, sfx):
    for n, ty in (('Float', 'float'), ('Int8', 'signed char'), ('Bit', 'int')):
        f = opt(k, tu, 'Run', lambda f: ('OutputTransform<%s,' % ty) in f['q'])
        agree(k, 'transform-' + n.lower() + sfx, {'Float': 'float output = clamp(2*acc)*multiplier + bias', 'Int8': 'int8 output = saturate(round(clamp(2*acc)*multiplier + bias))',
              'Bit': 'output bit = accumulator above its threshold'}[n], tu, f, k.fn(tu, 'spec::' + n), ['acc', 'c'], this=mk('sym', 't'), snames=['t', 'acc', 'c'], rules=T, n=8)


def setup(k):
    tu = k.spec('bconv2d.cc')
    for kt in KT:
        pr = lambda f: kt in (f.get('t') or '') and not (kt == 'kOptimizedBGEMM' and 'Indirect' in f['t'])
        agree(k, 'derive-' + kt, 'the first evaluation (%s) derives the transform constants from filter size, activation, operands and quantisation, and passes them on' % kt[1:], tu,
              callbacks(k, tu, REG[kt])['invoke'], k.fn(tu, 'spec::Eval', pr), ['context', 'node'], calls=OPAQUE, opaque=OPAQUE, rules=OT, n=8, callmap=kernel_transform)
