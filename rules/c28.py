"""The native conversion entry points against references: targets, shapes, names, import settings, quantisation settings and the arguments of the conversion driver, position by position."""
from common import *
from mlirc import *
import c19
FLOOR = 4
ASSUMPTIONS = ['TensorFlow importers honour their configuration', 'the text of error messages is free']


def plain(v):
    if isinstance(v, tuple):
        if v[:1] == ('ctor',) and len(v) == 3 and 'Span' in str(v[1]):
            return plain(v[2])
        if v == ('undef',):
            return 'default'
        return tuple(plain(x) for x in v)
    return v


def call(c):
    q, obj, args = c
    if q == 'throw' or q is None:
        return ('throw', None)
    return (q.split('<')[0].split('::')[-1], None) + tuple(plain(c19.flat(a)) for a in args)


def only(c):
    q, obj, args = c
    return ('throw', None) if q == 'throw' else (q.split('<')[0].split('::')[-1], None)


OK = [(r'^ok\(', lambda m, t: 0 if H(m, re.search(r'[A-Z]\w+', repr(t[2:]).replace('StatusOr', '').replace('OwningOpRef', '').replace('ModuleOp', '')).group(), 100) < 10 else 1, None), (r'is_none|isnull', 0, 1), (r'#n$', 0, 3), (r'should_quantize|post_training|quantize', 0, 1)]


def check(k):
    compare_entries(k)
    export(k)
    c19.driver(k)


def succeeded(o, m):
    """what a call did before it threw is C19"""
    return False if any(c[0] == 'throw' for c, _ in o.calls) else None


def compare_entries(k, order_only=False):
    cm = only if order_only else call
    pre = 'errors.' if order_only else ''
    few = r'^throw$|ConvertMLIRModule' if order_only else None
    w = (lambda s: 'a failing step throws and nothing is converted: ' + s) if order_only else (lambda s: s)
    kw = dict(mem=False, ret=not order_only, callmap=cm, ordered=not order_only, relevant=None if order_only else succeeded, known=(re.compile('^str:'),), n=2)
    tu = k.spec('entry_common.cc', 'mlir')
    if not order_only:
        agree(k, 'target', 'each target name stands for its own target and unknown ones are refused', tu, k.fn(tu, 'tensorflow::GetLCETarget'), k.fn(tu, 'spec::Target'), ['s'], calls='^throw$', callmap=only, mem=False, known=(re.compile('^str:'),),
              rules=[(r'^s$', ['arm', 'xcore', 'arm64', 'ARM', ''], None)])
    agree(k, pre + 'num_inputs', w('the inputs of the only entry function are counted'), tu, k.fn(tu, 'tensorflow::GetNumInputs'), k.fn(tu, 'spec::NumInputs'), ['module', 'num_inputs'], calls='^throw$', callmap=only, mem=not order_only,
          retmap=c19.status, rules=[(r'isnull\(.*"inputs"', 0, 0, 1, 1, 10), (r'isnull', 0, 1), (r'^size|#n', 0, 3)], known=(re.compile('^str:'),), n=2)
    agree(k, pre + 'settings', w('quantisation settings and arguments of the conversion'), tu, k.fn(tu, 'tensorflow::ConvertMLIRModuleToTFLiteFlatBuffer'), k.fn(tu, 'spec::Convert'),
          ['module', 'context', 'target', 'default_ranges', 'tags', 'dir', 'session', 'num_inputs', 'should_quantize', 'post_training'], calls=r'^throw$|ConvertTFExecutor', opaque=r'ConvertTFExecutor', rules=OK + [(r'num_inputs', 0, 3)], **kw)
    tu = k.spec('entry_graphdef.cc', 'mlir')
    agree(k, pre + 'graphdef', w('the graph definition entry point'), tu, k.fn(tu, 'tensorflow::ConvertGraphDefToTFLiteFlatBuffer'), k.fn(tu, 'spec::Convert'),
          ['graphdef_bytes', 'input_arrays', 'input_dtypes', 'input_shapes', 'output_arrays', 'should_quantize', 'target_str', 'default_ranges'],
          calls=few or r'^throw$|LoadProto|Parse\w+ArrayInfo|ConvertGraphdefToMlir|ConvertMLIRModule', opaque=r'ConvertMLIRModule|GetLCETarget', rules=OK, **kw)
    tu = k.spec('entry_saved_model.cc', 'mlir')
    agree(k, pre + 'saved_model', w('the saved model entry point'), tu, k.fn(tu, 'tensorflow::ConvertSavedModelToTFLiteFlatBuffer'), k.fn(tu, 'spec::Convert'),
          ['saved_model_dir', 'saved_model_tags', 'exported_names', 'saved_model_version', 'target_str', 'default_ranges'],
          calls=few or r'^throw$|RegisterAllCustomOps|ImportSavedModel|GetNumInputs|ConvertMLIRModule', opaque=r'ConvertMLIRModule|GetLCETarget|GetNumInputs', rules=OK, **kw)


def export(k):
    """the binding exports each entry point under its own name"""
    tu = k.spectext('pybind_export', '#include "larq_compute_engine/mlir/python/pybind_export.cc"\n', 'mlir')
    what = 'each entry point is exported under its own name'
    fs = [f for f in tu.fns.values() if f.get('body') is not None and re.search(r'pybind11_init__tf_tfl|init_impl', f['q'])]
    want = {'convert_graphdef_to_tflite_flatbuffer': 'ConvertGraphDefToTFLiteFlatBuffer', 'convert_saved_model_to_tflite_flatbuffer': 'ConvertSavedModelToTFLiteFlatBuffer'}
    if len(fs) != 1:
        return k.undecided('export', what, '%d module definitions' % len(fs))
    ev = Ev(tu)
    ev.call_top(fs[0])
    got = {}
    for e in ev.events:
        if e.kind == 'call' and re.search(r'\bdef\b|\.def', str(e.q)) and len(e.args) >= 2 and e.args[0].op == 'str' and e.guard is TRUE:
            got[e.args[0].a[0]] = str(e.args[1])
    site = '%s:%s' % (fs[0].get('file'), fs[0].get('line'))
    for n, t in want.items():
        v = got.get(n)
        k.rule('export.' + n, None if v is None and not got else v is not None and bool(re.search(r'\b%s\b' % t, v)), what, site, 'exports %s' % got)
