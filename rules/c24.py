"""Which registration each op name gets under every flag combination (value graph of RegisterLCECustomOps with opaque Register_* calls), which callbacks each
registration holds, and how the flags travel from the benchmark's command line, its globals, the Java bindings and the example to that function."""
from common import *
FLOOR = 7
ASSUMPTIONS = ['the resolver keeps one registration per name and version', 'parsing flags stores each under its name in params_']
KNOWN = (re.compile('^str:'), re.compile(r'^call:.*Register_[A-Z0-9_]+$'))
OPS = 'RegisterLCECustomOps'


def strip(v):
    """the object a chain of updates started from"""
    while isinstance(v, tuple) and v and v[0] in ('hist', 'upd') and len(v) > 1:
        v = v[1]
    return v


def registered(c):
    """what is put into the resolver: name and registration; the resolver's history and the order of different names are not observable"""
    q, obj, args = c
    if 'AddCustom' in q:
        return ('AddCustom',) + args
    return (q.split('::')[-1], None, args)


REGS = [('bconv2d.cc', 'Register_BCONV_2D_REF', 'bconv2d', 'kReference'), ('bconv2d.cc', 'Register_BCONV_2D_OPT_BGEMM', 'bconv2d', 'kOptimizedBGEMM'),
        ('bconv2d.cc', 'Register_BCONV_2D_OPT_INDIRECT_BGEMM', 'bconv2d', 'kOptimizedIndirectBGEMM'), ('bconv2d.cc', 'Register_BCONV_2D', 'bconv2d', 'kOptimizedBGEMM'),
        ('bmaxpool.cc', 'Register_BMAXPOOL_2D', 'bmaxpool', None), ('quantization.cc', 'Register_QUANTIZE', 'Quantize', None), ('quantization.cc', 'Register_DEQUANTIZE', 'Dequantize', None)]


def callback_fields(k):
    """every registration holds, slot by slot, the callbacks of its own op and kernel"""
    known = {}
    got = {}
    for file, name, op, kind in REGS:
        tu = k.tu(LCE + 'tflite/kernels/' + file)
        f = opt(k, tu, name)
        if f is None:
            k.undecided('callbacks.' + name, 'the registration exists', 'function not found')
            continue
        k.functions.add(f['q'])
        try:
            ev = Ev(tu)
            v = ev.call_top(f)
            g = {n: ev.load(ev.field(ev.deref(v), n)) for n in ('init', 'free', 'prepare', 'invoke')}
        except Exception as e:
            k.undecided('callbacks.' + name, 'the registration can be resolved', repr(e))
            continue
        got[name] = (g, '%s:%s' % (f['file'], f['line']), op, kind)

    def text(x):
        return x.a[0] if x.op == 'fnref' else 'null' if x.op == 'null' else None

    def sort(t):
        """(op, slot, kernel) of a callback whose name says so"""
        if t is None:
            return None
        base = t.split('<')[0]
        last = base.split('::')[-1]
        m = re.match(r'^(Quantize|Dequantize)?(Init|Free|Prepare|Eval|Invoke)$', last)
        if not m:
            return None
        op = m.group(1) or (base.split('::')[-2] if '::' in base else None)
        kk = re.search(r'k(Reference|OptimizedBGEMM|OptimizedIndirectBGEMM)\b', t)
        return op, {'Eval': 'invoke', 'Invoke': 'invoke'}.get(m.group(2), m.group(2).lower()), kk.group(0) if kk else None
    for name, (g, site, op, kind) in got.items():
        for slot, x in g.items():
            t = text(x)
            what = 'slot %s of %s holds the %s callback of its own op' % (slot, name, slot)
            need = slot in ('prepare', 'invoke') or op in ('bconv2d', 'bmaxpool')
            if t == 'null':
                k.rule('callbacks.%s.%s' % (name, slot), not need, what, site, 'the slot is empty')
                continue
            s = sort(t)
            if s is None:
                k.undecided('callbacks.%s.%s' % (name, slot), what, 'callback %s' % t, site)
                continue
            good = s[0] == op and s[1] == slot and (kind is None or slot in ('init', 'free') or s[2] is None or s[2] == kind)
            if good and kind and slot in ('prepare', 'invoke') and s[2] is None:
                # unresolved template argument: told apart by the instantiation index
                good = None
            k.rule('callbacks.%s.%s' % (name, slot), good, what, site, 'it holds %s' % t)


def check(k):
    tu = k.spec('registration.cc')
    A = dict(calls='AddCustom', opaque=r'Register_\w+$', callmap=registered, default=(0, 1), ret=False, mem=False, known=KNOWN)
    agree(k, 'ops', 'each op name gets its own registration; the convolution gets the kernel the flags ask for', tu,
          k.fn(tu, OPS), k.fn(tu, 'spec::ops'), ['resolver', 'use_reference_bconv', 'use_indirect_bgemm'], **A)
    agree(k, 'benchmark.selected', 'the benchmark registers with its two flags in their own positions', tu,
          opt(k, tu, 'RegisterSelectedOps', lambda f: 'spec' not in f['q']), k.fn(tu, 'spec::selected'), ['resolver'], **A)
    agree(k, 'java', 'the Java bindings hand out a resolver with the default kernels', tu, opt(k, tu, 'CreateOpResolver'), k.fn(tu, 'spec::java'), [], **A)
    f = opt(k, tu, 'lce_minimal_main')
    agree(k, 'example', 'the example registers the default kernels', tu, f, k.fn(tu, 'spec::minimal'), ['argc', 'argv'],
          **dict(A, rules=[(r'argc', 2, 2, 0, 1, 20)]))
    agree(k, 'benchmark.defaults', 'both flags default to false', tu, opt(k, tu, 'LceBenchmarkTfLiteModel::DefaultParams'), k.fn(tu, 'spec::defaults'), [],
          calls='AddParam', callmap=lambda c: ('AddParam', c[2]), ret=False, mem=False)
    me = mk('sym', 'this')
    agree(k, 'benchmark.run', 'flags are parsed before they are read, each sets its own global, and only then the benchmark runs', tu,
          opt(k, tu, 'LceBenchmarkTfLiteModel::Run'), k.fn(tu, 'spec::Model::Run', lambda f: len(f['params']) == 2 and f.get('body')), ['argc', 'argv'], this=me,
          calls=r'ParseFlags|BenchmarkModel::Run|BenchmarkTfLiteModel::Run', ordered=True, rules=[(r'ParseFlags', 0, 0, 1, 1, 30)])
    wiring(k, tu)
    callback_fields(k)


def wiring(k, tu):
    """constructor, flag list and main of the benchmark"""
    f = opt(k, tu, 'LceBenchmarkTfLiteModel::GetFlags')
    what = 'each command line flag is created on params_ under the name that is read back'
    if f is None:
        k.undecided('benchmark.flags', what, 'not found')
    else:
        ev = Ev(tu)
        rv = ev.call_top(f, this=mk('sym', 'this'))
        made = [e.args for e in ev.events if e.kind == 'call' and 'CreateFlag' in str(e.q) and e.guard is TRUE and e.args and e.args[0].op == 'str']
        names = {str(a[0].a[0]).strip('"'): a[1] for a in made}
        for n in ('use_reference_bconv', 'use_indirect_bgemm'):
            k.rule('benchmark.flags.' + n, None if not made else n in names and 'params_' in str(names[n]), what, '%s:%s' % (f['file'], f['line']), 'flags %s' % sorted(names))
        k.rule('benchmark.flags.listed', None if rv is None else not (rv.op == 'call' and rv.a[0] != 'upd'), 'the flags are added to the list handed to the parser', '%s:%s' % (f['file'], f['line']), 'the list of the base class is returned as it is')
    what = 'the benchmark writes the globals the registration reads'
    f = opt(k, tu, 'tflite::benchmark::Main')
    c = opt(k, tu, 'LceBenchmarkTfLiteModel::LceBenchmarkTfLiteModel')
    if f is None or c is None:
        k.undecided('benchmark.globals', what, 'not found')
        return
    ev = Ev(tu)
    ev.call_top(f)
    run = [e for e in ev.events if e.kind == 'call' and str(e.q).endswith('LceBenchmarkTfLiteModel::Run')]
    m = None
    if len(run) == 1 and run[0].obj is not None and run[0].obj.op == 'obj':
        m = {n: str(v).lstrip('&*') for n, v in run[0].obj.a[1]}
    r = all(m.get(n) == n for n in ('use_reference_bconv', 'use_indirect_bgemm')) if m and len(m) >= 2 else None
    k.rule('benchmark.globals', r, what, '%s:%s' % (f['file'], f['line']), 'reference members are bound to %s' % m)
