"""C12: the matrix path of the binary convolution (im2col, packing, BGEMM kernels, parameter blocks) against the definition
of the product in specs/bgemm.cc, for the portable build and the two ARM builds. The inside of the assembly kernels is opaque. The buffer
an assembly kernel stores a block to must hold a block of the size it is instantiated for (from the record layouts)."""
import re
from common import *
FLOOR = 3
ASSUMPTIONS = ["ruy's TrMul calls pack and kernel with block-aligned ranges, as documented in ruy/trmul_params.h",
               'the 32-bit writer of packed bits is given row ranges starting at a multiple of 32 (its layout has 32 columns)',
               'the inside of the inline assembly kernels is not interpreted']
A6 = ['tuning', 'src', 'mul_params', 'start', 'end', 'dst']


def check(k):
    import c10
    c10.wiring(k, only='kOptimizedBGEMM')
    tu = k.spec('bgemm.cc')
    ru = [(r'order', lambda m, t: H(m, 'ord', 4) == 0, None), (r'rows', 0, 6), (r'cols', 1, 5), (r'stride', 6, 7), (r'start', 0, 2), (r'end', 1, 6), (r'(Offset|data)', lambda m, t: H(m, repr(t), 1 << 32) - (1 << 31), None), (r'thresholds|clamp', -9, 9)]
    rb = [(r'order', 0, 0), (r'start.*1', 0, 2), (r'start', lambda m, t: 32 * H(m, 's', 2), None), (r'end.*1', 1, 4), (r'end', lambda m, t: 32 * (1 + H(m, 'e', 3)), None), (r'dst.*rows', 1, 70), (r'rows', 0, 2), (r'cols', 1, 3), (r'stride', 70, 77)] + ru[-2:]
    for n, ty in (('float', 'float'), ('int8', 'signed char'), ('bits', 'int')):
        f = opt(k, tu, 'RunBGemmKernel', lambda f: 'BinaryMulParams<int, %s' % ty in f['t'] or 'BinaryMulParams<int, %s' % ty in f['q'])
        s = k.fn(tu, 'spec::KernelBits' if n == 'bits' else 'spec::Kernel', lambda f: n == 'bits' or ty in f['t'])
        agree(k, 'kernel-' + n, 'the portable BGEMM kernel computes transform(sum of xor-popcounts over depth) for every element of its block and nothing else', tu, f, s, A6, rules=rb if n == 'bits' else ru)
    f = opt(k, tu, 'Run', lambda f: 'LceRuyPackImpl' in f['q'])
    agree(k, 'pack', 'the 4x4 packing routine lays out blocks of four columns in groups of four rows, zero outside the matrix', tu, f, k.fn(tu, 'spec::Pack4x4'), ['tuning', 'src', 'packed', 'c0', 'c1'], snames=['src', 'packed', 'c0', 'c1'],
          rules=[(r'rows', 0, 9), (r'cols', 1, 9), (r'packed.*stride', 12, 12), (r'stride', 9, 12), (r'c0', lambda m, t: 4 * H(m, 'c0', 2), None), (r'c1', lambda m, t: 4 * H(m, 'c0', 2) + 4 * H(m, 'c1', 3), None), (r'data', lambda m, t: H(m, repr(t), 1 << 20), None)])
    for mode in ('host', 'aarch64', 'arm32'):
        wiring(k, k.spec('bgemm.cc', mode), mode)


def wiring(k, tu, mode):
    for n, rec in sorted(tu.records.items()):
        m = re.match(r'.*BinaryKernelParams<(.*), (\d+), (\d+)>$', n)
        for x in rec['fields'] if m else ():
            d = re.search(r'\[(\d+)\]$', x['type'])
            if x['name'] == 'dst_tmp_buf' and d:
                k.rule('room-%s-%s' % (mode, n.split('::')[-1]), int(d.group(1)) >= int(m.group(2)) * int(m.group(3)), 'the buffer the assembly kernel stores a block to holds a whole block', n, '%s for a block of %s x %s' % (x['type'], m.group(2), m.group(3)))
    c = {n: one_of(n, 1, 1, 1, 2) for n in ('dh', 'dw', 'sh', 'sw', 'fh', 'fw')}
    nocol = lambda m, t: int(all(f(m, t) == 1 for f in c.values()))
    sh = [(r'isnull.*col', nocol, None)] + [(r, c[n], None) for r, n in ((r'dilation_h', 'dh'), (r'dilation_w', 'dw'), (r'stride_h', 'sh'), (r'stride_w', 'sw'), (r'fshape.*p_\[1\]', 'fh'), (r'fshape.*p_\[2\]', 'fw'))] + [
        (r'oshape.*p_\[3\]', one_of('oc', 32, 5, 64, 33), None), (r'oshape.*p_\[2\]', one_of('ow', 1, 2, 3, 32), None), (r'n_$', mostly('n4', 4, [3, 5], 4), None), (r'shape', 1, 3),
        (r'padding_type', 0, 2), (r'pad_value', 0, 1)]
    for f in sorted(tu.find('PopulateBGemmTrMulParams'), key=lambda f: f['t']):
        s = opt(k, tu, 'spec::Populate', lambda s: s['t'] == f['t'])
        if s is None or f.get('body') is None:
            continue
        n = f['t'].replace('compute_engine::core::bgemm::', '').replace('ruy::Path::', '')
        agree(k, 'populate-%s-%s' % (mode, n), 'the multiplication parameters wire packing, kernel, layouts and operands of the same path', tu, f, s, ['lhs', 'rhs', 'dst', 'mul_params', 'params'], calls='CreatePackedMatrix', opaque='CreatePackedMatrix|RunRuyPack|RunBGemmKernel$', rules=[(r'order', 0, 1)])
    for nm, sn, names, calls in (('bgemm::BGemm', 'spec::Multiply', ['lp', 'ld', 'rp', 'rd', 'dp', 'dd', 't', 'context'], 'MakeRuyMatrix|ToInternal|Transpose|PopulateBGemm|PreparePacked|TrMul|get_ctx'),
                                 ('BConv2DOptimizedBGEMM', 'spec::Conv', ['params', 'ishape', 'in', 'fshape', 'filter', 't', 'oshape', 'out', 'cshape', 'col', 'correction', 'pad_value', 'ctx'], 'Im2col|BGemm|ApplyCorrection')):
        for f in sorted(tu.find(nm), key=lambda f: f['t']):
            s = opt(k, tu, sn, lambda s: s['t'] == f['t'])
            if s is None or f.get('body') is None:
                continue
            agree(k, '%s-%s-%s' % (sn[6:].lower(), mode, f['t']), 'the convolution is the matrix product filter x patches over the same operands, shapes and transform', tu, f, s, names, calls=calls, opaque=calls, rules=sh, known=(re.compile('^agg:.*OutputTransform'),))
    for f in sorted(tu.find('MakeBinaryKernelParams'), key=lambda f: f['t']):
        s = opt(k, tu, 'spec::Params', lambda s: s['t'] == f['t'])
        if s is not None and f.get('body') is not None:
            agree(k, 'params-%s-%s' % (mode, f['t']), 'the parameter block of the assembly kernels describes the block being computed', tu, f, s, ['lhs', 'rhs', 'r0', 'c0', 'r1', 'c1', 'dst', 'mp', 'p'])
    for f in tu.find('RunRuyPack'):
        s = opt(k, tu, 'spec::RunPack', lambda s: s['t'] == f['t'])
        if s is not None and f.get('body') is not None:
            agree(k, 'runpack-%s' % mode, 'packing is dispatched on the storage order of the source', tu, f, s, ['t', 'e', 'pe', 'c0', 'c1'], calls='PackImpl.*Run', opaque='PackImpl.*Run', rules=[(r'order', 0, 1)])
    for s in tu.find('spec::KernelNeon'):
        acc, dst = s['t'][1:].split(', ')[:2]
        f = opt(k, tu, 'RunBGemmKernel', lambda f: f['t'] == '<ruy::Path::kNeon, %s, compute_engine::core::bgemm::BinaryMulParams<%s, %s>>' % (dst, acc, dst))
        if f is not None:
            agree(k, 'kernel-%s-%s-%s' % (mode, acc, dst), 'the assembly kernel run is the one the packed layout was chosen for', tu, f, s, A6, calls='BinaryKernelNeon', opaque='BinaryKernelNeon', rules=[])
