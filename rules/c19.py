"""The conversion driver against a reference: every failing step ends the conversion with the error of that step, nothing is exported after a failure, graphs with unsupported control
flow are refused, and the entry points turn every failure into an exception."""
from common import *
from mlirc import *
import eqv
FLOOR = 3
ASSUMPTIONS = ['passes, importers and the exporter report their failures through their results and through diagnostics', 'the text of error messages is free']
MGR = re.compile(r"^\('call', '\.run'")


def phase(t):
    t = repr(t)
    return 'stats' if 'PrintOpStats' in t else 'post' if 'AddPostVariable' in t else 'pre' if 'AddPreVariable' in t else 'none'


def flat(v):
    """fields in any order"""
    if isinstance(v, tuple):
        if v[:1] == ('obj',) and len(v) == 3:
            return ('obj', flat(v[1]), tuple(sorted((flat(x) for x in v[2]), key=repr)))
        return tuple(flat(x) for x in v)
    return v


def status(v, m):
    """what kind of status is returned"""
    if isinstance(v, tuple) and v[:1] == ('call',):
        q = str(v[1]).split('<')[0].split('::')[-1]
        if q == 'OkStatus':
            return 'ok'
        if q == '.Combine' or q.endswith('Combine'):
            return 'error' if 'Error' in repr(v[3:]) else 'status'
        if q.endswith('Error') or 'errors::' in str(v[1]):
            return 'error'
        if q.endswith('ConsumeStatus'):
            return 'diagnostics'
    return v


def step(c):
    q, obj, args = c
    q = q.split('<')[0].split('::')[-1]
    if q in ('.run', '.clear', '.addPass'):
        return (q, phase(obj)) + (() if q != '.addPass' else (repr(args[0][1]).split('<')[0],))
    if q.startswith('AddP'):
        return (q, None) + tuple(a for a in args if not re.search(r"PassManager|outarg|'out'|'hist'", repr(a)))
    if q == 'MlirToFlatBufferTranslateFunction':
        return (q, None, flat(args[0]), flat(args[1])) + tuple(args[2:])
    if q == '.print':
        return (q, obj)
    return (q, obj) + args


def driver(k):
    tu = k.spec('convert.cc', 'mlir')
    f = k.fn(tu, 'ConvertTFExecutorToTFLOrFlatbuffer')
    names = ['module', 'export', 'target', 'quant', 'tags', 'dir', 'session', 'result']
    agree(k, 'driver', 'every step of the conversion runs only after the earlier ones succeeded, and each failure is returned as such', tu, f, k.fn(tu, 'spec::Convert'), names,
          calls=r'^\.(run|clear|print)$|^\.addPass|AddP\w*ConversionPasses|FreezeVariables|MlirToFlatBuffer|verifyInvariants', opaque=r'ConversionPasses$|IsValidGraph', callmap=step, mem=False, ordered=True, retmap=status,
          known=(re.compile('^str:|^agg:|^call:.*InitPassManager'),), n=3,
          rules=[(r'^\.run', lambda m, t: 0 if H(m, 'run' + phase(t), 100) < 12 else 1, None), (r'applyPassManagerCLOptions|IsValidGraph|FreezeVariables|MlirToFlat|verifyInvariants', 1, 1, 0, 0, 10), (r'isnull', 0, 1), (r'export', 0, 1)])
    return tu


def check(k):
    graphs(k, driver(k))
    entries(k)


def graphs(k, tu):
    """IsValidGraph refuses exactly the modules in which the walk meets a control flow V1 op"""
    f = opt(k, tu, 'IsValidGraph')
    what = 'graphs with control flow V1 ops are refused'
    if f is None:
        return k.undecided('valid', what, 'IsValidGraph not found')
    ev = Ev(tu)
    v = ev.call_top(f, args={p['name']: mk('sym', p['name']) for p in f['params']})
    site = '%s:%s' % (f.get('file'), f.get('line'))
    k.functions.add('%s %s' % (f['q'], site))
    cb = [e for e in ev.events if e.kind == 'cbret']
    ops = ('SwitchOp', 'MergeOp', 'EnterOp', 'ExitOp', 'NextIterationSinkOp', 'NextIterationSourceOp')
    if len(cb) != 1 or any(e.kind == 'call' and '.walk' in str(e.q) and e.guard is not TRUE for e in ev.events):
        return k.undecided('valid', what, 'the walk cannot be resolved', site)
    bad, und = [], None
    for i in range(-1, len(ops)):
        for hit in (0, 1):
            m = eqv.Model(k.seed, [(re.compile(r'isnull\(as\(mlir::tf_executor::%s\b' % ops[i] if i >= 0 else '^never'), 0, 0), (re.compile('isnull'), 1, 1), (re.compile('wasInterrupted'), hit, hit)], (0, 3))
            m.strs = []
            try:
                it = eqv.Interp(m, ev.PHI, snap=ev.snap)
                r = it.ev(cb[0].args[0], {0: 0, 1: 0})
                ret = it.ev(v, {})
            except (eqv.Undecided, eqv.Reject, LookupError) as u:
                und = repr(u)
                continue
            got = 'interrupt' if 'WalkResult::interrupt' in repr(r) and 'advance' not in repr(r) else 'advance' if 'WalkResult::advance' in repr(r) else None
            if got is None:
                und = repr(r)[:200]
            elif got != ('interrupt' if i >= 0 else 'advance'):
                bad.append('%s: %s' % (ops[i] if i >= 0 else 'any other op', got))
            if bool(m.num(ret)) == bool(hit):
                bad.append('interrupted=%d returns %s' % (hit, ret))
    if bad and not und:
        k.violation('valid', what, site, '; '.join(sorted(set(bad))))
    elif und:
        k.undecided('valid', what, und, site)
    else:
        k.ok('valid', what, 'the walk stops at each of %d op kinds and nowhere else' % len(ops), site)


def entries(k):
    """each step of the entry points: a failing status throws, and nothing is converted"""
    import c28
    c28.compare_entries(k, order_only=True)
