"""Who may keep state: every object with static storage duration in the runtime, the converter and the bindings, what writes it and what initialises it; and the module and default-argument state of the Python layer.
An object of static storage that is written after its initialisation and read elsewhere, or that is initialised from the arguments of whichever call came first, carries information from one interpreter, node or conversion to the next."""
from common import *
import ast
FLOOR = 12
ASSUMPTIONS = ['TFLite, ruy and MLIR keep their own shared state consistent', 'state reached through pointers the runtime hands out (user_data, temporaries) is the node\'s own: C04 and C06 decide how it is made']
UNITS = [('tflite/kernels/bconv2d.cc', ('host', 'aarch64', 'arm32')), ('tflite/kernels/bmaxpool.cc', ('host',)), ('tflite/kernels/quantization.cc', ('host', 'aarch64')), ('tflite/kernels/lce_ops_register.h', ('host',)),
         ('tflite/python/interpreter_wrapper_lite.cc', None)]
UNITS += [('mlir/transforms/%s.cc' % f, ('mlir',)) for f in 'bitpack bitpack_weights detection_postprocess fuse_padding legalize_tflite op_removal optimize prepare_tf quantize set_batch_size translate_tflite'.split()]
UNITS += [('mlir/%s.cc' % f, ('mlir',)) for f in ('ir/lce_ops', 'tf_tfl_passes', 'tf_to_tfl_flatbuffer', 'python/common', 'python/graphdef_tfl_flatbuffer', 'python/saved_model_tfl_flatbuffer')]
SYNC = re.compile(r'once_flag|mutex|atomic|Mutex')


def walk(n, up=()):
    yield n, up
    if isinstance(n, list):
        for x in n:
            if isinstance(x, (list, dict)):
                yield from walk(x, up + (n,))
    elif isinstance(n, dict):
        for x in n.values():
            if isinstance(x, (list, dict)):
                yield from walk(x, up + (n,))


def tls(file, line):
    try:
        return 'thread_local' in ' '.join(open(file).read().split('\n')[max(0, line - 2):line])
    except OSError:
        return False


def local_inputs(init):
    """what of the enclosing call an initialiser depends on: parameters, locals, the object"""
    out, inner = [], set()
    for n, up in walk(init):
        if isinstance(n, list) and n:
            if n[0] == 'lambda':
                return out, True
            if n[0] == 'var':
                out.append(n[2])
            if n[0] == 'this':
                out.append('this')
    return out, False


def uses(n, gid, up):
    """how an occurrence of the object is used: write, update, read, address, method"""
    child = n
    for p in reversed(up):
        if not isinstance(p, list) or not p:
            child = p
            continue
        t = p[0]
        if t in ('member', 'index') and p[1] is child:
            child = p
            continue
        if t == 'cast' and p[1] in ('NoOp', 'ArrayToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase'):
            child = p
            continue
        if t == 'un' and p[1] == '*':
            child = p
            continue
        if t == 'assign' and p[2] is child:
            return 'write' if p[1] == '=' else 'update'
        if t == 'un' and p[1] in ('++', '--'):
            return 'update'
        if t == 'un' and p[1] == '&':
            return 'address'
        if t == 'mcall' and p[1] is child:
            return 'read' if isinstance(p[2], dict) and p[2].get('const') else 'method'
        if t in ('call', 'ctor') and isinstance(p[1] if t == 'call' else p[2], dict):
            c = p[1] if t == 'call' else p[2]
            args = p[2] if t == 'call' else p[3]
            for i, a in enumerate(args):
                if a is child:
                    pm = c.get('pm') or []
                    return 'address' if i < len(pm) and pm[i] in ('r', 'p') else 'read'
        return 'read'
    return 'read'


def only_guards(f, gid):
    """the object is read only in conditions of branches that neither assign anything else nor return: a report made once"""
    for n, up in walk(f['body']):
        if isinstance(n, list) and n[:1] == ['gvar'] and n[1] == gid and uses(n, gid, up) == 'read':
            ifs = [p for p in up if isinstance(p, list) and p[:1] == ['if']]
            if not ifs:
                return False
            for m, mu in walk(ifs[-1][3:]):
                if isinstance(m, list) and m and (m[0] == 'return' or m[0] == 'assign' and not (isinstance(m[2], list) and m[2][:2] == ['gvar', gid])):
                    return False
    return True


def check(k):
    seen = set()
    n = 0
    for path, modes in UNITS:
        oid = path
        try:
            if modes is None:
                tus = [(k.spec('wrapper.cc', 'mlir'), 'mlir')]
            else:
                tus = [(k.spectext('state ' + path, '#include "tensorflow/lite/kernels/internal/types.h"\nusing namespace tflite;\n#include "larq_compute_engine/%s"\n' % path if path.startswith('tflite') else '#include "larq_compute_engine/%s"\n' % path, m), m) for m in modes]
        except FileNotFoundError:
            k.undecided(oid, 'objects of static storage', 'no unit')
            continue
        bad, soft, cnt, fns = [], [], 0, 0
        for tu, mode in tus:
            b, s, c, f = unit(tu)
            bad += [x for x in b if x not in bad]
            soft += [x for x in s if x not in soft]
            cnt, fns = cnt + c, fns + f
        what = 'no object of static storage carries state between calls'
        if not fns:
            k.undecided(oid, what, 'no function of the repository in the unit')
        elif bad:
            for name, site, why in bad:
                k.violation('%s:%s' % (oid, name), what, site, '%s %s' % (name, why))
        elif soft:
            k.undecided(oid, what, '; '.join('%s %s' % (x[0], x[2]) for x in soft))
        else:
            k.ok(oid, what, '%d objects, %d functions, modes %s' % (cnt, fns, [m for _, m in tus]))
    python(k)


def unit(tu):
    from fe import REPO
    bad, soft = [], []
    objs = {}
    for g in tu.globals.values():
        if str(g.get('file', '')).startswith(REPO + '/larq_compute_engine/'):
            objs[g['id']] = dict(name=g['q'], file=g['file'], line=g['line'], type=g['type'], const=g['const'], init=None, owner=None)
    fs = [f for f in tu.fns.values() if f.get('body') is not None and str(f.get('file', '')).startswith(REPO + '/larq_compute_engine/')]
    for f in fs:
        for n, up in walk(f['body']):
            if isinstance(n, list) and n[:1] == ['decl']:
                for d in n[2]:
                    if isinstance(d, dict) and d.get('static'):
                        objs[d['id']] = dict(name=d['name'], file=f['file'], line=d['line'], type=d['sugar'], const=re.match(r'const\b|.*\*\s*const$|.*\bconstexpr\b', d['sugar']) is not None, init=d.get('init'), owner=f)
    use = {i: [] for i in objs}
    for f in fs:
        for n, up in walk(f['body']):
            if isinstance(n, list) and n[:1] == ['gvar'] and n[1] in objs:
                use[n[1]].append((uses(n, n[1], up), f))
    for i, o in objs.items():
        site = '%s:%s' % (o['file'], o['line'])
        deps, lam = local_inputs(o['init']) if o['init'] is not None else ([], False)
        if deps:
            bad.append((o['name'], site, 'keeps the value that the first call of %s computed from %s' % (o['owner']['q'].split('<')[0], ', '.join(sorted(set(map(str, deps)))))))
            continue
        if o['const']:
            continue
        ks = [u for u, _ in use[i]]
        reg = 'TfLiteRegistration' in o['type']
        wr = [f for u, f in use[i] if u in ('write', 'update') or u in ('method', 'address') and not reg]
        rd = [f for u, f in use[i] if u == 'read' or u in ('method', 'address')]
        if not wr or not rd:
            continue
        if SYNC.search(o['type']) or tls(o['file'], o['line']):
            soft.append((o['name'], site, 'is mutable static state behind synchronisation or per thread'))
        elif 'PassRegistration' in o['type']:
            continue
        elif all(u in ('write', 'update', 'read') for u in ks) and all(only_guards(f, i) for _, f in use[i]):
            soft.append((o['name'], site, 'only guards a report'))
        else:
            bad.append((o['name'], site, 'is static, written in %s and used in %s' % (wr[0]['q'].split('<')[0], rd[0]['q'].split('<')[0])))
    return bad, soft, len(objs), len(fs)


MUT = {'append', 'extend', 'insert', 'update', 'add', 'setdefault', 'pop', 'clear', 'remove', 'popitem', 'discard', 'sort'}


def python(k):
    from fe import REPO
    what = 'no module variable or default argument carries state between calls'
    for path in ('mlir/python/converter.py', 'mlir/python/util.py', 'tflite/python/interpreter.py', 'tflite/python/interpreter_base.py'):
        try:
            t = ast.parse(open('%s/larq_compute_engine/%s' % (REPO, path)).read())
        except (OSError, SyntaxError):
            k.undecided(path, what, 'not readable')
            continue
        mod = {x.id for s in t.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        bad, fns = [], 0
        for c in [t] + [x for x in ast.walk(t) if isinstance(x, ast.ClassDef)]:
            shared = {x.id for s in c.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.Call)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} if isinstance(c, ast.ClassDef) else set()
            for f in [x for x in ast.walk(c) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
                own = set() if c is t else shared
                inst = own and any(isinstance(g, ast.FunctionDef) and g.name == '__init__' and any(isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store) and a.attr in own for a in ast.walk(g)) for g in c.body)
                bad += fn(f, mod, own if not inst else set(), path)
                fns += c is t
        if bad:
            for name, line, why in sorted(set(bad)):
                k.violation('%s:%s' % (path, name), what, '%s:%d' % (path, line), '%s %s' % (name, why))
        else:
            k.ok(path, what, '%d functions, %d module variables' % (fns, len(mod)))


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls'):
            return '.' + e.attr
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def fn(f, mod, shared, path):
    out = []
    a = f.args
    defaults = list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    muts = {x.arg for x, d in defaults if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set')}
    glob = {n for s in ast.walk(f) if isinstance(s, ast.Global) for n in s.names}
    local = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    rebound = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for n in ast.walk(f):
        tgt = []
        if isinstance(n, ast.Assign):
            tgt = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt = [n.target]
        elif isinstance(n, ast.Delete):
            tgt = n.targets
        for e in tgt:
            if isinstance(e, ast.Name) and e.id in glob:
                out.append((e.id, n.lineno, 'is a module variable written by %s' % f.name))
            if isinstance(e, ast.Subscript):
                out += mutated(root(e), n, f, mod - local, muts - rebound, shared)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            out += mutated(root(n.func.value), n, f, mod - local, muts - rebound, shared)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in muts - rebound and any(isinstance(e, ast.Attribute) for e in n.targets):
            out.append((n.value.id, n.lineno, 'is a mutable default argument of %s kept in an attribute' % f.name))
    return out


def mutated(r, n, f, mod, muts, shared):
    if r in mod:
        return [(r, n.lineno, 'is a module variable changed by %s' % f.name)]
    if r in muts:
        return [(r, n.lineno, 'is a mutable default argument changed by %s' % f.name)]
    if r and r[0] == '.' and r[1:] in shared:
        return [(r, n.lineno, 'is a class attribute changed by %s' % f.name)]
    return []
