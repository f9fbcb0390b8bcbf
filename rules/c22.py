"""Effect summaries of the flatbuffer rewriting functions compared with the reference functions of specs/util.py: which operators and
tensors are removed under which conditions, how inputs, outputs and signature entries are redirected and renumbered, which models are refused."""
from pyc import *
FLOOR = 4
ASSUMPTIONS = ['the generated flatbuffer object API reads and writes what it is given', 'a model lists each builtin operator code once',
               'nothing refers to a removed tensor any more when it is removed (what marks such references is not compared)',
               'a value read after it has been modified is an unknown value: both sides read the same places at the same point']
INT = {'gone[]', 'inputs[]', 'outputs[]', 'tensorIndex', 'opcodeIndex', 'subgraphIndex'}
U = 'larq_compute_engine/mlir/python/util.py'


def scalar(n):
    return 'int' if n in INT else True if n in ('type', 'builtinCode', 'customCode') else None


def check(k):
    kw = dict(scalar=scalar, seq={'signatureDefs'}, skip=lambda e, v: e.kind == 'setitem' and v == ('i', -1))
    q = ('sym', 'gone')
    agree(k, 'remove_tensors', 'references are renumbered exactly when a lower tensor disappears, the tensors at the given positions are deleted', U,
          '_remove_tensors_from_model', 'util.py', 'remove_tensors', args={2: ('coll', 'set', ((((q, 0),), pyfx.TRUE, ('each', q, 0)),))}, need=False, **kw)
    agree(k, 'modify', 'inputs and outputs are redirected across the outermost quantize and dequantize operators, only what nothing needs is removed', U,
          'modify_integer_quantized_model_io_type', 'util.py', 'modify', **kw)
    agree(k, 'strip_lce', 'the LceDequantize operators producing outputs are removed', U, '_strip_lcedequantize_ops_subgraph', 'util.py', 'strip_subgraph_lce', need=False, **kw)
    agree(k, 'strip_all', 'dequantize operators producing outputs are removed first, then LceDequantize', U, '_strip_lcedequantize_ops_subgraph', 'util.py', 'strip_subgraph', need=False, **kw)
    agree(k, 'strip', 'every subgraph is processed and the model is serialised again', U, 'strip_lcedequantize_ops', 'util.py', 'strip', **kw)
