"""Value graphs of the binary max-pool kernel (option parsing, Prepare, the pooling loop nest and Eval) are compared with a
specification of binary max pooling: the output bit is the AND of the window's in-range input words, output shape and padding
come from the op's own options, malformed nodes are rejected."""
from common import *
FLOOR = 4
ASSUMPTIONS = ['integers do not overflow', 'ComputePaddingHeightWidth, ResizeTensor and flexbuffers behave as documented']
DIMS = [(r'dims|p_', 1, 4), (r'stride|filter', 1, 3), (r'padding', 0, 2)]


def init(k, tu, oid):
    cb = callbacks(k, tu, 'Register_BMAXPOOL_2D')
    agree(k, oid, 'each pooling option is read from its own key into its own parameter', tu, cb['init'], k.fn(tu, 'spec::Init'),
          ['context', 'buffer', 'length'], known=(re.compile('^str:'),), rules=[('padding', 0, 3)])


def check(k):
    tu = k.spec('bmaxpool.cc')
    cb = callbacks(k, tu, 'Register_BMAXPOOL_2D')
    f = lambda n: k.fn(tu, n)
    agree(k, 'pool', 'every output word is the AND of the input words in its clamped window, and nothing else is written', tu,
          opt(k, tu, 'compute_engine::core::BMaxPool'), f('spec::BMaxPool'), ['params', 'ishape', 'in', 'oshape', 'out'], rules=DIMS)
    init(k, tu, 'init')
    agree(k, 'prepare', 'Prepare accepts exactly well-formed nodes and sizes the output from the pooled shape', tu, cb['prepare'], f('spec::Prepare'),
          ['context', 'node'], rules=PREP, n=12, relevant=on_success)
    agree(k, 'eval', 'Eval pools input 0 into output 0 with the prepared parameters', tu, cb['invoke'], f('spec::Eval'), ['context', 'node'], rules=DIMS)


PREP = [(r'puts\.size|outputs\.size', 1, 1, 0, 3, 10), (r'dims\.size', 4, 4, 0, 5, 10), (r'\.type', 2, 2, 1, 3, 10), (r'stride|filter', 1, 3, 0, 0, 8), (r'pcall', 0, 1)]
