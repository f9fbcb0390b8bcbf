"""Value graph of the batch-size pass compared with its specification: exactly the function inputs (signature and entry block
arguments alike) whose leading dimension is dynamic get leading dimension 1, other dimensions, element types, ranks, results
and all remaining arguments are passed through unchanged."""
from common import *
FLOOR = 2
ASSUMPTIONS = ['MLIR type accessors are pure', 'clone(shape) keeps element type and encoding (MLIR API)']
RULES = [(r'getShape.*(#d|\])', -1, 4), (r'.', 0, 3)]


def dyn(m, tok):
    # half of all dimensions are the dynamic-size marker
    import zlib
    h = zlib.crc32(repr((m.seed, tok)).encode())
    return -(1 << 63) if h % 2 else 1 + h % 5


def callmap(c):
    # setting a value's type to the type it already has is no change
    if c[0] == '.setType' and c[2] and c[2][0][:2] == ('call', '.getType') and c[2][0][2] == c[1]:
        return None
    return c


def check(k):
    tu = k.spec('set_batch_size.cc', 'mlir')
    rules = [(r'#n\)*$', 0, 3), (r'getShape.*#d', dyn, None), (r'#n|size', 0, 3)]
    agree(k, 'pass', 'function type and block arguments are rewritten input by input, nothing else is touched', tu,
          k.fn(tu, 'mlir::SetBatchSizePass::runOnOperation'), k.fn(tu, 'spec::Pass::runOnOperation'), [], calls=r'\.set|\.erase|\.remove|\.insert|signalPassFailure',
          rules=rules, callmap=callmap, this=mk('sym', 'this'), n=3)
    f = k.fn(tu, 'mlir::CreateSetBatchSizePass')
    g = graph(k, tu, f)
    k.rule('factory', ('SetBatchSizePass' in str(f) and 'spec' not in str(g.value)), 'the factory creates this pass', f['q'])
