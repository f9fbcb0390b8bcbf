"""Kernel selection: (1) the evaluation callback of each registration, for each output type and target, hands its own kernel the node's
tensors, shapes and parameters (value graphs of the registered callback and of the wiring specification, kernels opaque); (2) every kernel object
the indirect kernel factory can return is one whose limits cover the problem: the value graph of the factory is evaluated in finite models and each
selected specialisation is judged by the limits it declares (16-bit accumulators, depth multiple, single block, single group).
(3) the scratch tensor the matrix kernel gathers patches into exists exactly when filter, stride or dilation need it, and has the size of the patches."""
import re
from common import *
from c04 import REG, KT
from c06 import OPAQUE, members_read
from c07 import OT
import eqv
from ri import Model, Undecided, Reject, Interp
FLOOR = 9
ASSUMPTIONS = ['the specialisations Kernel8x4x{1,2,4}Aarch64 accumulate in 16 bits, process their depth block exactly, and their flags mean depth above one block and grouped, as their names and loops say',
               'integers do not overflow']


def CI(m, t=None):
    return [1, 2, 3, 32, 96, 128, 253, 254, 255, 256, 64, 508, 510, 1016, 1020][H(m, 'ci', 15)]


def FH(m, t=None):
    return [1, 2, 3, 16, 16, 8, 32][H(m, 'fh', 7)]


RU = [(r'isnull.*indirect_bgemm_kernel', 0, 1), (r'params\.filter_height|GetInput,context,node,1\)\.dims\.data\[1\]', FH, None),
      (r'params\.filter_width|GetInput,context,node,1\)\.dims\.data\[2\]', lambda m, t: [1, 3, 16, 16, 8, 5][H(m, 'fw', 6)], None),
      (r'params\.channels_in', CI, None), (r'params\.groups', lambda m, t: 1, None), (r'one_time_setup', mostly('ots', 1, 0, 40), None),
      (r'im2col_index', mostly('imi', 0, -1, 50), None), (r'padding_type', 0, 2), (r'pad_value', 0, 1), (r'(dims|Dims).*', 1, 4)] + OT


def check(k):
    for mode in ('host', 'aarch64'):
        tu = wiring(k, mode)
        selection(k, tu, mode)
        import c04
        pr = lambda f: 'kOptimizedBGEMM' in (f.get('t') or '') and 'Indirect' not in f['t']
        agree(k, 'scratch-' + mode, 'the matrix kernel is given patches to gather exactly when filter, stride or dilation need them, in a tensor of the right size', tu,
              callbacks(k, tu, REG['kOptimizedBGEMM'])['prepare'], k.fn(tu, 'spec::Prepare', pr), ['context', 'node'], rules=c04.RULES, n=6, calls='ResizeTensor', ret=False,
              relevant=lambda o, m: (lambda nm: 'im2col_index' in nm or 'GetTemporary' in nm or 'IntArray' in nm) if m.num(o.ret) == 0 else False, known=(re.compile(r'^field:(inputs|outputs|size|data|dims|type|bytes|allocation_type)$'),))


def wiring(k, mode='host', only='k'):
    tu = k.spec('bconv2d.cc', mode)
    reads = members_read(tu)
    for kt in KT:
        if only in kt:
            pr = lambda f: kt in (f.get('t') or '') and not (kt == 'kOptimizedBGEMM' and 'Indirect' in f['t'])
            agree(k, 'wiring-%s-%s' % (kt, mode), 'evaluation (%s, %s) runs its own kernel on the node\'s tensors with the accumulator width the filter volume allows' % (kt[1:], mode), tu,
                  callbacks(k, tu, REG[kt])['invoke'], k.fn(tu, 'spec::Eval', pr), ['context', 'node'], calls=OPAQUE, opaque=OPAQUE, rules=RU, n=8, mem=False, callmap=lambda c: prune(c, reads))
    return tu


def prune(c, reads):
    if 'Correction' in c[0]:
        return None

    def norm(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'obj':
                return ('obj', norm(v[1]), tuple((n, norm(x)) for n, x in v[2] if n in reads or n.endswith('_')))
            return tuple(norm(x) for x in v)
        return v
    return (re.sub(r'<Kernel.*', '', c[0]), norm(c[1]), norm(c[2]))


EDGE = [(16, 16, 8), (16, 16, 7), (8, 8, 32), (8, 8, 31), (8, 8, 30), (4, 4, 128), (4, 4, 127), (1, 1, 2048), (1, 1, 2047), (2, 2, 512), (2, 2, 510), (3, 3, 228), (3, 3, 227), (32, 16, 4), (16, 32, 5)]


def dims(m, i):
    if H(m, 'edge', 3) == 0:
        return EDGE[H(m, 'edge2', len(EDGE))][i]
    return [1, 2, 3, 5, 11, 16][H(m, 'fh', 6)] if i == 0 else [1, 3, 3, 5, 11, 16][H(m, 'fw', 6)] if i == 1 else [1, 2, 3, 4, 6, 8, 5, 12, 16, 20, 7, 13][H(m, 'w', 12)]


SEL = [(r'filter_height', lambda m, t: dims(m, 0), None), (r'filter_width', lambda m, t: dims(m, 1), None),
       (r'channels_out', lambda m, t: G(m) * (1 + H(m, 'co', 20)), None), (r'groups', lambda m, t: G(m), None), (r'channels_in', lambda m, t: 32 * W(m) * G(m) if G(m) > 1 else 32 * W(m) - H(m, 'cr', 32), None)]


def G(m):
    return [1, 1, 2, 3, 4][H(m, 'g', 5)]


def W(m):
    return dims(m, 2)


def selection(k, tu, mode):
    for dst, sfx in (('float', 'float'), ('signed char', 'int8'), ('int', 'bits')):
        oid, what = 'select-%s-%s' % (sfx, mode), 'the kernel selected for %s output (%s) covers the problem' % (sfx, mode)
        f = k.fn(tu, 'spec::select_' + sfx)
        try:
            g = graph(k, tu, f, ['params', 'ishape', 'oshape', 't'])
        except Exception as e:
            k.undecided(oid, what, 'evaluation failed: %r' % e)
            continue
        k.result(oid, judge(k, g, dst), what)


def cls(v):
    """name of the class of the returned object"""
    s = repr(v)
    ks = set(re.findall(r'(Kernel\d\w*<[^>]*>)', s))
    return ks


def judge(k, g, dst):
    seen, n = {}, 0
    rules = [(re.compile(r[0]),) + tuple(r[1:]) for r in SEL + [(r'ishape.*(dims_\[3\]|Dims.*3|\[3\])', lambda m, t: W(m) * G(m), None), (r'size', 4, 4),
             (r'ishape', lambda m, t: [1, 2, 3, 4, 8][H(m, repr(t), 5)], None), (r'shape', 1, 9)]]
    g.wset, g.cset = set(), set()
    want = 150 if k.tier == 'quick' else 2000
    und = None
    for t in range(want * 2):
        m = Model(k.seed * 104729 + t, rules)
        try:
            o = eqv.interpret(g, m, True)
        except Reject:
            continue
        except Undecided as u:
            und = str(u)
            continue
        c = cls(o.ret)
        if len(c) != 1:
            return eqv.Result('undecided', 'the selected object is not resolved: %s' % eqv.sv(o.ret))
        c = c.pop()
        n += 1
        seen[c] = seen.get(c, 0) + 1
        fh, fw, gr, w = rules[0][1](m, 0), rules[1][1](m, 0), G(m), W(m)
        asg = 'filter %dx%d, %d words per group, %d groups' % (fh, fw, w, gr)
        name, args = re.match(r'(Kernel\w+)<(.*)>', c).groups()
        args = [x.strip() for x in args.split(',')]
        if args[0] != dst and not (dst == 'signed char' and args[0] in ('signed char', 'std::int8_t', 'int8_t')):
            return eqv.Result('violated', '%s is chosen for %s output' % (c, dst), site(g), asg, n)
        x = re.match(r'Kernel8x4x(\d)Aarch64', name)
        if x:
            b = int(x.group(1))
            tr = lambda s: s in ('true', '1')
            if fh * fw * w * 32 > 65535:
                return eqv.Result('violated', '%s accumulates in 16 bits but an accumulator can reach %d' % (c, fh * fw * w * 32), site(g), asg, n)
            if w % b:
                return eqv.Result('violated', '%s needs a depth that is a multiple of %d words' % (c, b), site(g), asg, n)
            if tr(args[1]) != (w > b):
                return eqv.Result('violated', '%s: the depth-above-one-block variant must be chosen exactly for deeper problems' % c, site(g), asg, n)
            if not tr(args[2]) and gr > 1:
                return eqv.Result('violated', '%s does not support groups' % c, site(g), asg, n)
        elif not name.startswith('Kernel4x2Portable'):
            return eqv.Result('undecided', 'unknown kernel %s' % c)
    if n < 20:
        return eqv.Result('undecided', und or 'not sampled')
    return eqv.Result('agree', 'kernels selected: %s' % sorted(seen.items()), samples=n)


def site(g):
    return 'larq_compute_engine/core/indirect_bgemm/select_kernel.h (SelectRuntimeKernel)'
