"""Value graphs of the binary convolution's option parsing and of Prepare (all three kernel variants) compared with a
specification of what the op accepts: option keys, group inference, per-output-type operand checks, the zero-padding
restriction, output shape, scratch tensor; every malformed node must be rejected before anything is sized from it."""
from common import *
FLOOR = 5
ASSUMPTIONS = ['integers do not overflow', 'ComputePaddingHeightWidth, ResizeTensor, AddTensors and flexbuffers behave as documented']
B = 'compute_engine::tflite::bconv2d::'
REG = {'kReference': 'Register_BCONV_2D_REF', 'kOptimizedBGEMM': 'Register_BCONV_2D_OPT_BGEMM', 'kOptimizedIndirectBGEMM': 'Register_BCONV_2D_OPT_INDIRECT_BGEMM'}
KT = ['kReference', 'kOptimizedBGEMM', 'kOptimizedIndirectBGEMM']


def initialised(o, m):
    # of an options block that was refused, only the refusal itself is observable
    for l, v in o.mem.items():
        if l[0] == 'f' and l[2] == 'successfully_initialized' and m.num(v):
            return None
    return lambda nm: 'successfully_initialized' in nm


def init(k, tu, oid):
    cb = callbacks(k, tu, REG['kReference'])
    agree(k, oid, 'each convolution option is read from its own key; missing keys and invalid pad values are refused', tu, cb['init'], k.fn(tu, 'spec::Init'),
          ['context', 'buffer', 'length'], known=(re.compile('^str:'),), rules=[('^bool.*IsNull', 0, 0, 1, 1, 6), ('AsInt32.*pad_values', 0, 1, -1, 3, 30), ('AsInt32', 0, 5)], n=8, relevant=initialised)
    return cb


def check(k):
    tu = k.spec('bconv2d.cc')
    cb = init(k, tu, 'init')
    agree(k, 'free', 'the options block is released with the type it was created with', tu, cb['free'], k.fn(tu, 'spec::Free'), ['context', 'buffer'], calls='delete')
    for kt in KT:
        pr = lambda f: kt in (f.get('t') or '') and not (kt == 'kOptimizedBGEMM' and 'Indirect' in f['t'])
        agree(k, 'prepare-' + kt, 'Prepare (%s) accepts exactly well-formed nodes, and sizes the output and scratch tensors' % kt[1:], tu,
              callbacks(k, tu, REG[kt])['prepare'], k.fn(tu, 'spec::Prepare', pr), ['context', 'node'], rules=RULES, n=12, calls='AddTensors|ResizeTensor', relevant=on_success, known=(re.compile(r'^field:(inputs|outputs|size|data|dims|type|bytes|allocation_type)$|^call:TfLiteIntArray(Free|Copy)$'),))


def CH(m):
    return [32, 64, 96, 128, 192, 33, 40, 31, 2, 7, 256, 320, 1, 66, 48, 112][H(m, 'channels', 16)]


def packed(n):
    return (n + 31) // 32


def wdepth(m):
    d = packed(CH(m))
    divs = [x for x in range(1, d + 1) if d % x == 0]
    return d if H(m, 'wd', 3) == 0 else divs[H(m, 'wd2', len(divs))]


def COUT(m):
    return [32, 64, 4, 8, 1, 33, 6, 12, 5, 96][H(m, 'cout', 10)]


GOOD_TYPE = [1, 2, 9]
RULES = [('successfully_initialized', mostly('si', 1, 0), None), (r'inputs\.size', mostly('is', 5, [4, 6, 0]), None), (r'outputs\.size', mostly('os', 1, [2, 0]), None),
         (r'GetInput,context,node,[01]\)\.dims\.size', 4, 4, 0, 5, 4), (r'GetInput,context,node,[014]\)\.type', 2, 2, 1, 3, 4),
         (r'GetInput,context,node,[234]\)\.dims\.size', 1, 1, 0, 2, 4), (r'GetInput,context,node,[23]\)\.type', 1, 1, 2, 3, 4),
         (r'GetOutput,context,node,0\)\.type', mostly('ot', GOOD_TYPE, [0, 3, 7]), None),
         (r'GetInput,context,node,1\)\.dims\.data\[3\]', mostly('w3', wdepth, [1, 2, 3, 5], 15), None),
         (r'GetInput,context,node,1\)\.dims\.data\[0\]', lambda m, t: COUT(m), None),
         (r'GetInput,context,node,[234]\)\.dims\.data$', lambda m, t: COUT(m) if H(m, str(t), 100) > 5 else COUT(m) + 1, None),
         (r'GetInput,context,node,1\)\.dims\.data$', lambda m, t: COUT(m), None),
         (r'GetInput,context,node,[234]\)\.dims\.data\[0\]', lambda m, t: COUT(m) if H(m, str(t), 100) > 5 else COUT(m) + 1, None),
         (r'channels_in', lambda m, t: CH(m), None), (r'padding_type', mostly('pt', [1, 2], [0, 1, 2]), None), (r'pad_value', 0, 1),
         (r'fused_activation', mostly('act', 0, [0, 1, 2, 3], 40), None), (r'stride|dilation|GetInput,context,node,1\)\.dims\.data\[[12]\]', lambda m, t: 1 if H(m, str(t), 6) else 2, None), (r'quantization', mostly('q', 1, [0, 1]), None),
         (r'allocation_type', mostly('at', [2, 3], [1, 4, 0]), None), (r'im2col_id', mostly('im', -1, [0, 3], 50), None), (r'pcall', mostly('pc', 0, 1, 5), None)]
