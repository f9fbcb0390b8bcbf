"""Python half: effect summaries of the interpreter class compared with specs/interpreter.py; native half: value graphs of the wrapper compared with specs/wrapper.cc."""
import re
import pyc, pyfx, common
from pyc import module, summary, signature, REPO
from common import mk, mostly, H
FLOOR = 6
ASSUMPTIONS = ['numpy, tqdm, pybind11 and the TensorFlow Lite interpreter do what their names say', 'laziness of the sample iterator is not observable']
D = 'larq_compute_engine/tflite/python/'
PROPS = ['input_types', 'input_shapes', 'input_scales', 'input_zero_points', 'output_types', 'output_shapes', 'output_scales', 'output_zero_points']


def python(k):
    kw = dict(pure={'isinstance', 'hasattr', 'expand_dims', 'concatenate'}, scalar=lambda n: 'int' if n in ('verbose',) else None)
    pyc.agree(k, 'samples', 'every sample of every input is handed on with a leading dimension of one, in order', D + 'interpreter_base.py',
          'data_generator', 'interpreter.py', 'samples', need=False, **kw)
    pyc.agree(k, 'predict', 'every sample is predicted once, the results are concatenated per output, a single output is returned bare', D + 'interpreter_base.py',
          'InterpreterBase.predict', 'interpreter.py', 'Base.predict', cls='InterpreterBase', **kw)
    pyc.agree(k, 'construct', 'the model and every option reach the native interpreter in their own positions', D + 'interpreter.py',
          'Interpreter.__init__', 'interpreter.py', 'Interpreter.__init__', cls='Interpreter', byname=True, **kw)
    signature(k, D + 'interpreter.py', 'Interpreter.__init__', 'interpreter.py', 'Interpreter.__init__')
    signature(k, D + 'interpreter_base.py', 'InterpreterBase.predict', 'interpreter.py', 'Base.predict')
    m = module(k, REPO + D + 'interpreter_base.py')
    for n in PROPS:
        f = m.find('InterpreterBase.' + n)
        if f is None:
            k.violation('property.' + n, 'the attribute exists', D + 'interpreter_base.py', 'property %s of InterpreterBase is missing' % n)
            continue
        ev = summary(k, m, f, cls='InterpreterBase')
        r = [e for e in ev.effects if e.kind == 'return']
        v = r[0].args[0] if len(r) == 1 else None
        native = v is not None and v[0] == 'attr' and v[1] == ('attr', ('sym', 'self'), 'interpreter')
        k.rule('property.' + n, v[2] == n if native else None, 'the attribute returns the native interpreter\'s attribute of the same name', '%s:%d' % (m.path, f.lineno),
               'returns %s' % (pyfx.show(v) if native else 'something else'))


def native(k):
    tu = k.spec('wrapper.cc', 'mlir')
    W = 'InterpreterWrapperBase<tflite::Interpreter>::'
    me = mk('sym', 'this')
    rules = [(r'isnull|^null|Null', 0, 0, 1, 1, 12), (r'quantization.*type', 0, 1), (r'operator bool|operator!=', 1, 1, 0, 0, 15), (r'[^#]*is\(.*float', 1, 1, 0, 0, 25), (r'\.type$', 1, 1, 0, 9, 35), (r'nbytes|bytes$', 16, 16, 12, 12, 8),
             (r'dims\.size|ndim', mostly('nd', lambda m: H(m, 'nd', 3), [0, 1, 2, 3], 8), None), (r'input_list\)$|#n', mostly('n', lambda m: H(m, 'n', 3), [0, 1, 2, 3], 8), None), (r'size', 0, 2), (r'dims|shape', 2, 2, 3, 3, 8),
             (r'zero_point', 0, 1), (r'Invoke', 0, 0, 1, 1, 10)]

    def agree(oid, what, rf, sf, names, snames=None, **kw):
        common.agree(k, oid, what, tu, rf, k.fn(tu, 'spec::' + sf), names, snames=snames, calls='throw|memcpy|Invoke|accessor::assign', rules=rules, ordered=True, n=3, known=(re.compile('^str:|^call:.*Interpreter::(inputs|outputs)$'),), **kw)
    opt = lambda n: common.opt(k, tu, n)
    agree('type_of', 'numpy types map to the runtime types of the same size and meaning', opt('TfLiteTypeFromPyType'), 'type_of', ['py_type'])
    agree('dtype_of', 'runtime types map to the numpy types of the same size and meaning, unknown types raise', opt('PyTypeFromTfLiteType'), 'dtype_of', ['type'])
    agree('set_tensor', 'type, rank, shape and size are checked, then exactly the tensor\'s bytes are copied', opt('SetTensorFromNumpy'), 'SetTensor', ['tensor', 'nparray'])
    agree('predict', 'inputs are counted, checked and copied, the model runs, every output is returned with its own type and shape', k.fn(tu, W + 'predict'), 'predict',
          ['input_list'], this=me, sargs={'w': mk('sym', 'this')}, snames=[None, 'input_list'])
    for d in ('input', 'output'):
        for n in ('types', 'shapes', 'zero_points', 'scales'):
            agree('native.%s_%s' % (d, n), 'the attribute lists the %s of the model\'s %ss in order' % (n.replace('_', ' '), d), k.fn(tu, W + 'get_%s_%s' % (d, n)), d + '_' + n,
                  [], this=me, sargs={'w': mk('sym', 'this')})
    common.agree(k, 'native.construct', 'the model is copied, built with the kernels and threads asked for, allocated, and every failure raises', tu,
                 common.opt(k, tu, 'LiteInterpreterWrapper::LiteInterpreterWrapper'), k.fn(tu, 'spec::Lite::Lite'),
                 ['flatbuffer', 'num_threads', 'use_reference_bconv', 'use_indirect_bgemm', 'use_xnnpack'], this=me,
                 calls='throw|BuildFrom|RegisterLCE|InterpreterBuilder|AllocateTensors', opaque='RegisterLCECustomOps', rules=rules + [('operator()', 0, 1)], ordered=True)
    f = common.opt(k, tu, 'pybind11_init_interpreter_wrapper_lite')
    what = 'every Python attribute is bound to the native function of the same name'
    if f is None:
        k.undecided('native.module', what, 'the module definition is not found')
        return
    ev = common.Ev(tu)
    ev.call_top(f)
    bound = {}
    for e in ev.events:
        if e.kind == 'call' and 'class_' in str(e.q) and '::def' in str(e.q) and len(e.args) >= 2 and e.args[0].op == 'str':
            bound[str(e.args[0].a[0]).strip('"')] = e
    site = '%s:%s' % (f.get('file'), f.get('line'))
    for n in PROPS + ['predict']:
        e = bound.get(n)
        if e is None:
            k.violation('native.module.' + n, what, site, '%s is not bound' % n)
        else:
            r = e.args[1]
            want = ('get_' if n != 'predict' else '') + n
            k.rule('native.module.' + n, None if r.op != 'fnref' else r.a[0].split('<')[0] == want or r.a[0].split('::')[-1] == want, what, '%s:%s' % (f.get('file'), e.line), 'bound to %s' % r)


def check(k):
    python(k)
    native(k)
