"""Quantize and dequantize: preparation accepts exactly the well-formed nodes and sizes the packed tensor; evaluation packs every element below the zero
point into its bit and unpacks every bit into the scaled plus or minus one, for each type."""
from common import *
FLOOR = 4
ASSUMPTIONS = ['integers do not overflow', 'ResizeTensor behaves as documented', 'false is the all-zero byte']


def ND0(m):
    return 0 if H(m, 'rank0', 12) == 0 else ND(m)


def ND(m):
    return 1 + H(m, 'nd', 4)


def C(m):
    return [1, 31, 32, 33, 64, 5, 40, 65][H(m, 'c', 8)]


def check(k):
    tu = k.spec('quantization.cc')
    for op, reg, t, u in (('quantize', 'Register_QUANTIZE', 'Input', 'Output'), ('dequantize', 'Register_DEQUANTIZE', 'Output', 'Input')):
        cb = callbacks(k, tu, reg)
        n = op.capitalize()
        dims = []
        for i in range(4):
            d = r'dims\.data(\[%d\])?$' % i if i == 0 else r'dims\.data\[%d\]$' % i
            dims += [(r'Get%s,context,node,0\)\..*%s' % (t, d), lambda m, tk, i=i: C(m) if i == ND(m) - 1 else 1 + H(m, 'd%d' % i, 2), None),
                     (r'Get%s,context,node,0\)\..*%s' % (u, d), lambda m, tk, i=i: ((C(m) + 31) // 32 if i == ND(m) - 1 else 1 + H(m, 'd%d' % i, 2)) + (H(m, 'bad%d' % i, 12) == 0), None)]
        vt = mostly('vt', [1, 6, 9], [0, 2, 3, 7, 4], 20)
        ru = dims + [(r'puts\.size|outputs\.size', 1, 1, 0, 3, 10), (r'Input.*dims\.size', mostly('nd', ND0, [0, 5], 10), None), (r'Output.*dims\.size', mostly('nd2', ND0, [0, 1, 2], 10), None),
                     (r'Get%s,context,node,0\)\.type' % t, vt, None), (r'Get%s,context,node,0\)\.type' % u, mostly('pt', 2, [1, 9, 0], 12), None), (r'pcall', 0, 1)]
        agree(k, op + '-prepare', 'preparation (%s) accepts exactly well-formed nodes of rank at least one and sizes the packed dimension' % op, tu, cb['prepare'], k.fn(tu, 'spec::%sPrepare' % n), ['context', 'node'],
              rules=ru, n=12, relevant=on_success, calls='ResizeTensor')
        el = [(r'params\.zero_point', [0, -1, 5, -128, -127, 127, 100, 128, -129], None), (r'params\.scale', [1, 0.5, 0.25, 0.0625, 2, 0.0078125], None), (r'dims\.size', lambda m, tk: ND(m), None)]
        if op == 'quantize':
            el += [(r'Data<signed char>', lambda m, tk: [-128, 127, 0, 5, -1][H(m, 'b' + repr(tk), 15)] if H(m, 'b' + repr(tk), 15) < 5 else H(m, repr(tk), 9) - 4, None), (r'Data<bool>', 0, 1), (r'Data<float>', lambda m, tk: H(m, repr(tk), 9) - 4 + (m.seed % 2) * 3, None)]
        else:
            el += [(r'Input.*data\.data', lambda m, tk: H(m, repr(tk), 1 << 32) - (1 << 31), None)]
        agree(k, op + '-eval', 'evaluation (%s) produces every bit or value of its output from its own element' % op, tu, cb['invoke'], k.fn(tu, 'spec::%sEval' % n), ['context', 'node'],
              rules=dims + el + [(r'Get%s,context,node,0\)\.type' % t, vt, None)], n=4)
