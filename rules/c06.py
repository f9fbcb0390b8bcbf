"""Non-interference of cached state: Prepare followed by Eval is evaluated to one value graph per kernel variant, with
the compute kernels opaque.  On executions where preparation succeeds, the kernel calls (arguments, guards, order) and all memory they
read must be the same function of options and tensors whatever the initial contents of every other field of the
per-node state; a dependence on a cached field is reported with the first observable that differs.
The resizes Prepare makes are compared with the specification of Prepare, whatever sizes the tensors had before."""
import re
from common import *
from c04 import RULES, KT, B, REG
MORE = [(r'GetInput,context,node,[1-4]\)\.allocation_type', 1, 2)]
from ri import Model, Undecided, Reject, tokname
import eqv
FLOOR = 6
ASSUMPTIONS = ['fields Init fills from the options are the only per-node state fixed for the lifetime of the node; the id of the scratch tensor is assigned by the framework and stays valid',
               'the compute kernels read nothing but their arguments']
OPAQUE = r'BConv2DReference|BConv2DOptimized|CacheCorrectionValues|SelectRuntimeKernel|PackWeights|FillIndirectionBuffer'


def options_fields(k, tu):
    """fields whose value Init takes from the option map or sets as its own success mark; scratch tensor ids handed to the framework"""
    g = graph(k, tu, callbacks(k, tu, 'Register_BCONV_2D_REF')['init'], ['context', 'buffer', 'length'])
    out = set()
    for e in g.writes:
        if e.kind == 'store' and e.args[0].op == 'field':
            val = e.args[1]
            st, dep = [val], False
            while st:
                x = st.pop()
                if x.op == 'call':
                    dep = True
                st.extend(eqv.kidsof(x))
            if dep or val is eqv.TRUE:
                out.add(e.args[0].a[1])
    return out


def field_of(tok):
    """the per-node field (path) a token stands for, None if it is not per-node state"""
    path = []
    while isinstance(tok, tuple) and tok:
        if tok[0] == 'f':
            if tok[2] == 'user_data':
                return path[::-1] if path and tok[1] in (('p', ('sym', 'node'), 0), ('sym', 'node')) else None
            path.append(tok[2])
            tok = tok[1]
        elif tok[0] in ('p', 'init', 'addr', 'bool', 'sel', 'fld'):
            tok = tok[1]
        else:
            return None
    return None


IM2COL_READS = {'stride_width', 'stride_height', 'dilation_width_factor', 'dilation_height_factor', 'padding_values', 'padding_type', 'width', 'height'}


def members_read(tu):
    """member names the compute kernels (anything under core/) mention"""
    out = set(IM2COL_READS)

    def walk(x):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == 'member' and isinstance(x[2], str):
                out.add(x[2])
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for f in tu.fns.values():
        if '/larq_compute_engine/core/' in str(f.get('file')):
            walk(f.get('body'))
    return out


def check(k):
    tu = k.spec('bconv2d.cc')
    fixed = options_fields(k, tu)
    if len(fixed) < 6:
        raise Broken_('Init fills only %s from the options' % sorted(fixed))
    k.notes.append('fields fixed by the options: %s' % sorted(fixed))
    reads = members_read(tu)
    for kt in KT:
        f = k.fn(tu, 'spec::PrepareThenEval_' + kt)
        oid, what = 'fresh-' + kt, 'evaluation after Prepare (%s) depends on nothing cached before it' % kt[1:]
        try:
            g = graph(k, tu, f, ['context', 'node'], calls=OPAQUE, opaque=OPAQUE)
        except Exception as e:
            k.undecided(oid, what, 'evaluation failed: %r' % e)
            continue
        g.wset, g.cset = set(g.writes), set(g.cev)
        ids = set()
        for e in g.events:
            if e.kind == 'pcall' and 'AddTensors' in str(e.q):
                for a in e.args:
                    if a.op == 'addr' and a.a[0].op == 'field':
                        ids.add(a.a[0].a[1])
        free = lambda tok: (lambda p: p is not None and not (set(p) & (fixed | ids)))(field_of(tok))
        k.result(oid, noninterf(k, g, free, reads), what)
        pr = lambda f: kt in (f.get('t') or '') and not (kt == 'kOptimizedBGEMM' and 'Indirect' in f['t'])
        agree(k, 'sizes-' + kt, 'Prepare (%s) sizes output and scratch tensors from the current tensors alone, whatever their size was before' % kt[1:], tu,
              callbacks(k, tu, REG[kt])['prepare'], k.fn(tu, 'spec::Prepare', pr), ['context', 'node'], rules=[(r'bytes', lambda m, t: H(m, repr(t), 4000), None)] + RULES, n=8, calls='ResizeTensor', relevant=scratch, ret=False, known=(re.compile(r'^field:(inputs|outputs|size|data|dims|type|bytes|allocation_type)$'),))


def scratch(o, m):
    """of a successful preparation only the resizes matter here"""
    return (lambda nm: False) if m.num(o.ret) == 0 else False


def Broken_(msg):
    import chk
    return chk.Broken(msg)


def noninterf(k, g, free, reads):
    rules = [(re.compile(r[0]),) + tuple(r[1:]) for r in MORE + RULES]
    n, und = 0, None
    want, tries = (60, 1500) if k.tier == 'quick' else (600, 12000)
    calls = set()
    varied = set()
    for t in range(tries):
        if n >= want:
            break
        obs = []
        try:
            for w in (0, 1):
                class M(Model):
                    def num(self, tok, hint=None):
                        if not isinstance(tok, (bool, int)) and tok is not None and tok.__class__ is tuple and w and tok not in self.cache:
                            if free(tok):
                                varied.add('.'.join(field_of(tok)))
                                self.cache[tok] = H(self, 'other' + tokname(tok), 7)
                                return self.cache[tok]
                        return Model.num(self, tok, hint)
                m = M(k.seed * 7919 + t, rules, (0, 6))
                o = eqv.interpret(g, m, True)
                if m.num(o.ret) != 0:
                    raise Reject('not prepared')
                obs.append((m, o))
        except Reject:
            continue
        except Undecided as u:
            und = str(u)
            if t > 40 and not n:
                return eqv.Result('undecided', und)
            continue
        n += 1
        (m0, a), (m1, b) = obs
        names = lambda o: [c[0] for c, e in o.calls]
        calls.update(names(a))

        def eq(x, y):
            # a value read through a cached location is a different value in the two runs
            return norm(m0, x, free, reads) == norm(m1, y, free, reads)
        for i in range(max(len(a.calls), len(b.calls))):
            if i >= len(a.calls) or i >= len(b.calls) or a.calls[i][0][0] != b.calls[i][0][0]:
                c = (a.calls + b.calls)[min(i, len(a.calls + b.calls) - 1)] if i >= min(len(a.calls), len(b.calls)) else a.calls[i]
                longer = a.calls if len(a.calls) > len(b.calls) else b.calls
                c = longer[i] if i < len(longer) else c
                return eqv.Result('violated', 'whether %s is called depends on state cached before Prepare' % c[0][0], eqv.site(c[1]), 'fields varied: %s' % sorted(varied), n)
            if not eq(a.calls[i][0], b.calls[i][0]):
                return eqv.Result('violated', 'an argument of %s depends on state cached before Prepare' % a.calls[i][0][0], eqv.site(a.calls[i][1]),
                                  diff(norm(m0, a.calls[i][0], free, reads), norm(m1, b.calls[i][0], free, reads)), n)
        for l in list(a.mem) + list(b.mem):
            if (l in a.mem) != (l in b.mem):
                v0, v1 = m0.num(a.mem.get(l, ('init', l))), m1.num(b.mem.get(l, ('init', l)))
                if v0 == v1:
                    continue        # left as it was, with the value the other run writes
                e = a.src.get(l) or b.src.get(l)
                return eqv.Result('violated', 'whether %s is recomputed depends on state cached before Prepare' % tokname(l), eqv.site(e), 'fields varied: %s' % sorted(varied), n)
            if not eq(a.mem[l], b.mem[l]):
                return eqv.Result('violated', '%s depends on state cached before Prepare' % tokname(l), eqv.site(a.src[l]),
                                  diff(norm(m0, a.mem[l], free, reads), norm(m1, b.mem[l], free, reads)), n)
    if n < 5:
        return eqv.Result('undecided', und or 'preparation never succeeds in the sampled models')
    return eqv.Result('agree', 'no dependence found; kernel calls observed: %s; cached fields varied: %s' % (sorted(calls), sorted(varied)), samples=n)


def norm(m, v, free, reads):
    """marks initial contents of cached locations; drops struct members no compute kernel reads"""
    if isinstance(v, tuple):
        if v and v[0] == 'init' and free(v):
            return ('cached', tokname(v), id(m))
        if len(v) == 3 and v[0] == 'obj':
            return ('obj', norm(m, v[1], free, reads), tuple((n, norm(m, x, free, reads)) for n, x in v[2] if n in reads or n.endswith('_')))
        return tuple(norm(m, x, free, reads) for x in v)
    return v


def diff(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        d = [(a, b) for a, b in zip(x, y) if a != b]
        if d and isinstance(d[0][0], tuple) and x[0] != 'cached':
            return diff(*d[0])
    return '%s versus %s' % (eqv.sv(x), eqv.sv(y))
