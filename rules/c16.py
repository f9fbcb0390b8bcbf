"""(1) Value graphs of the functions that the rewrite patterns call, as conditions or to compute operands, against their definitions; (2) every declarative pattern (TableGen records,
expanded) interpreted: the matched and the constructed expression denote the same value whenever the conditions hold, the result is one the runtime accepts, and matched intermediate
results have no other use."""
from common import *
from mlirc import *
from ri import tokname
import tdc
FLOOR = 40
ASSUMPTIONS = ['shapes of ranked types are static where the functions index them', 'getValues enumerates the elements in order', 'float values are reals']
F = lambda m, t: Fraction([-2, -1, 1, 2, 3, 0][H(m, repr(t), 6)], 2)
NEAR, FAR = [1, -1, 1, -1, 1, -1, Fraction(997, 1000), Fraction(-501, 500)], [2, 0, Fraction(100, 101), -2, Fraction(1, 2 ** 24)]
T2 = 'larq_compute_engine/mlir/transforms/'


def operands(k):
    """the functions that compute operands and attributes"""
    tu = k.spec('prepare.cc', 'mlir')
    D = [(r'^obj\(vec', key, None)] + [(r'getShape.*, *%d\)$' % i, (lambda i: lambda m, t: 1 + H(m, repr(t), (2, 2, 2, 3)[i]))(i), None) for i in range(4)]
    agree(k, 'fill', 'the neutral vector has one value per output channel', tu, opt(k, tu, 'TFL::GetConstantVector'), k.fn(tu, 'spec::fill'), ['filter', 'val'], rules=D)
    agree(k, 'scale', 'the scale of an output channel is the magnitude of its filter values', tu, opt(k, tu, 'TFL::GetScaleVector'), k.fn(tu, 'spec::scale'), ['filter'], rules=D + [(r'getValues', F, None)])
    agree(k, 'channels', 'the number of channels is the last dimension', tu, opt(k, tu, 'TFL::GetNumChannels'), k.fn(tu, 'spec::channels'), ['b', 'v'], rules=[(r'#n', 2, 5)])
    return tu, D


def helpers(k):
    tu, D = operands(k)
    agree(k, 'constant', 'a constant has the expected value when every element does', tu, opt(k, tu, 'TFL::IsConstantValue'), k.fn(tu, 'spec::constant'), ['values', 'expected'],
          rules=[(r'getNumElements|size', 0, 3), (r'isa', 1, 1, 0, 0, 10), (r'getValues|^expected', mostly('cv', 1, [1, 1, 2], 60), None)], n=3)
    agree(k, 'binary', 'only 4D float filters with one nonzero magnitude per output channel are binary', tu, opt(k, tu, 'TFL::IsBinaryFilter'), k.fn(tu, 'spec::binary'), ['filter'],
          rules=[(r'^obj\(vec', key, None), (r'epsilon', [Fraction(1, 2 ** 23)], None), (r'getShape.*#n', lambda m, t: ((4,) * 10 + (3, 5))[H(m, 'rank', 12)], None), (r'getShape.*, *\d\)$', lambda m, t: 1 + H(m, repr(t), 3), None),
                 (r'is[A-Z]|isa', 1, 1, 0, 0, 5), (r'getValues', lambda m, t: Fraction(FAR[H(m, repr(t) + 'f', len(FAR))] if H(m, 'odd', 2) and H(m, repr(t), 14) == 0 else NEAR[H(m, repr(t), len(NEAR))]), None)], n=10)
    IDX = re.compile(r', *(\d+)\)$')

    def at(f):
        return lambda m, t: f(m, int(IDX.search(tokname(t)).group(1)) if IDX.search(tokname(t)) else 1 + H(m, 'dimension', 2))
    P = [(r'^obj\(vec', key, None), (r'^isnull', 0, 0, 1, 1, 8), (r'#n.*paddings|paddings.*#n', 2, 2, 1, 3, 8), (r'paddings.*#d.*, *0\)$', 4, 4, 3, 5, 8), (r'paddings.*#d.*1\)$', 2, 2, 1, 3, 8), (r'#n', 4, 4, 3, 5, 12),
         (r'output.*#d', at(OUT), None), (r'input.*#d', at(IN), None), (r'getInt', lambda m, t: ST(m, tokname(t)), None),
         (r'getValues', pad, None), (r'isa|is', 1, 1, 0, 0, 12), (r'^dimension$|^d$', lambda m, t: 1 + H(m, 'dimension', 2), None)]
    agree(k, 'same', 'explicit padding counts as SAME padding only with the output size and the halves SAME padding has, and none of batch and channels', tu, opt(k, tu, 'TFL::IsSamePadding'),
          k.fn(tu, 'spec::same'), ['paddings', 'input', 'output', 'strides'], rules=P, n=8)
    agree(k, 'partial', 'the same per dimension', tu, opt(k, tu, 'TFL::IsSamePaddingPartial'), k.fn(tu, 'spec::partial'), ['paddings', 'input', 'output', 'stride', 'dimension'], rules=P, n=6)
    agree(k, 'alignment', 'paddings that fit several filter sizes are accepted only where SAME padding is the same for all of them', tu, opt(k, tu, 'TFL::IsSamePaddingPartial'),
          k.fn(tu, 'spec::aligned'), ['paddings', 'input', 'output', 'stride', 'dimension'], rules=P, n=6)
    agree(k, 'spatial', 'no padding of batch and channels', tu, opt(k, tu, 'TFL::NoBatchAndChannelPadding'), k.fn(tu, 'spec::spatial'), ['paddings'], rules=P, n=4)
    CF = lambda m: [1, 3, 32, 64, 16, 96][H(m, 'cf', 6)]
    CH = [(r'^isnull', 0, 0), (r'#n', 4, 4), (r'filter.*#d.*, *2\)$', lambda m, t: CF(m), None), (r'filter.*#d', lambda m, t: [1, 2, 32, 96][H(m, repr(t), 4)], None), (r'input.*#d', lambda m, t: CF(m) * [1, 1, 2, 3][H(m, 'gr', 4)] + (H(m, 'off', 5) == 0), None)]
    agree(k, 'filtershape', 'the filter channels divide the input channels, and groups are whole words', tu, opt(k, tu, 'TFL::HasValidFilterShape'), k.fn(tu, 'spec::filtershape'), ['input', 'filter'],
          rules=CH, n=4)


def IN(m, i):
    return 1 + H(m, 'in%d' % i, 6)


def ST(m, name=''):
    """the stride of a dimension: rows and columns differ in half of the samples"""
    both = H(m, 'same stride', 2)
    mm = re.search(r'strides.*?, *([12])\)', name)
    return 1 + H(m, 'stride' + ('' if both or not mm else mm.group(1)), 3)


def OUT(m, i):
    return -(-IN(m, i) // ST(m, 'strides, %d)' % i)) if H(m, 'o%d' % i, 8) else 1 + H(m, 'out%d' % i, 6)


def key(m, t):
    """multi-dimensional element index -> number"""
    def find(x):
        if isinstance(x, tuple):
            if x[:2] == ('A', 'zarr'):
                return x[2]
            for y in x:
                z = find(y)
                if z is not None:
                    return z
    d = dict(find(t) or ())
    n = 0
    for i in range(max(d, default=-1) + 1):
        v = d.get(i, 0)
        n = n * 10 + int(v if isinstance(v, (int, Fraction)) else m.num(v))
    return n


def pad(m, t):
    mm = re.search(r', *(\d+)\)$', tokname(t))
    d, i = divmod(int(mm.group(1)) if mm else 0, 10)
    if d in (0, 3):
        return int(H(m, 'off%d.%d' % (d, i), 14) == 0)
    return H(m, 'before%d' % d, 3) + (H(m, 'odd%d' % d, 2) if i else 0) + (H(m, 'off%d.%d' % (d, i), 9) == 0)


FILES = ['op_removal_patterns.td', 'prepare_patterns_common.td', 'prepare_patterns_target_arm.td', 'optimize_patterns_common.td', 'optimize_patterns_target_arm.td', 'quantize_patterns.td', 'bitpack_activations_patterns.td',
         'bitpack_weights_patterns.td', 'fuse_padding.td']
SINGLE = re.compile(r'^(LQ_Bconv2dOp|TFL_MaxPool2DOp|TFL_Pad(V2)?Op|TFL_(Greater|Less)EqualOp)$')


def walk(k):
    """(td, file, id, pattern) of every pattern that can be read"""
    seen = {}
    for f in FILES:
        path = tdc.TR + f
        try:
            td, ps = tdc.patterns(path, seen)
        except Exception as e:
            k.undecided(f, 'the patterns of the file can be read', '%s: %s' % (type(e).__name__, str(e)[:300]))
            continue
        k.units.append('%s [llvm-tblgen records]' % path)
        for oid, p in ps:
            if isinstance(p, tdc.Und):
                k.undecided(oid, 'the pattern can be read', str(p))
            else:
                k.functions.add('%s (%s)' % (oid, p.loc))
                yield td, f, oid, p


def equation(k, td, oid, p, what, wide=False, minimum=8):
    """the matched and the constructed expression denote the same value in every feasible sample"""
    n, seeds = 0, 60 if k.tier == 'quick' else 600
    try:
        for r, a, b in tdc.samples(td, p, seeds, wide=wide):
            n += 1
            if tdc.differs(a, b):
                k.violation(oid, what, p.loc, 'sample %d: matched %s, constructed %s%s' % (n, a, b, r.show()))
                return False
    except (tdc.Und, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        k.undecided(oid, what, '%s: %s' % (type(e).__name__, e), p.loc)
        return None
    if n < minimum:
        k.undecided(oid, what, 'only %d feasible samples' % n, p.loc)
        return None
    k.ok(oid, what, '%d samples of %d element values' % (n, tdc.N), p.loc)
    return True


def legality(k, td, f, oid, p):
    """what the result of a pattern needs beyond having the right value"""
    bad, zeroq, shape, n, use = None, None, None, 0, None
    arm_only = 'target_arm' in f or f not in ('prepare_patterns_common.td',)
    try:
        for r, a, b in tdc.samples(td, p, 60):
            n += 1
            for op, s in r.built:
                if op != 'LQ_Bconv2dOp':
                    continue
                zero = s['padding'] == 'SAME' and s['pad_values'] == 0
                kinds = [isinstance(s[x], tdc.T) and s[x].kind == 'none' for x in ('output_threshold', 'post_activation_multiplier', 'post_activation_bias')]
                if kinds not in ([True, False, False], [False, True, True]):
                    bad = bad or 'both or neither of thresholds and multiplier with bias'
                elif zero and (s['fused_activation_function'] != 'NONE' or not kinds[0]):
                    bad = bad or 'zero padding (SAME with pad value 0) with a fused activation or packed output'
                elif zero and p.ops[0][1] == 'TFL_QuantizeOp':
                    zeroq = 'zero padding (SAME with pad value 0) with quantised output'
                elif zero and not arm_only:
                    bad = bad or 'zero padding (SAME with pad value 0) for a target that has none'
                for x in ('post_activation_multiplier', 'post_activation_bias'):
                    if isinstance(s[x], tdc.T) and s[x].kind == 'f' and s[x].shape not in ('channel', 'scalar'):
                        shape = shape or x
            missing = [(path, op) for path, op, _ in p.ops[1:] if SINGLE.match(op) and not any(F[0] == 'oneuse' and F[1] == ('node', path) for F in r.facts)]
            if missing:
                use = missing[0][1]
    except Exception as e:
        k.undecided(oid + ':target', 'the result is one the runtime accepts', '%s: %s' % (type(e).__name__, e), p.loc)
        return
    if not n:
        return
    if any(op == 'LQ_Bconv2dOp' for op, _ in r.built):
        k.rule(oid + ':target', not bad, 'the constructed convolution is one the runtime accepts', p.loc, bad or '%d samples' % n)
        if p.ops[0][1] == 'TFL_QuantizeOp':
            k.rule(oid + ':zero-padding', not zeroq, 'a convolution with zero padding keeps its float output', p.loc, zeroq or '%d samples' % n)
        if f.startswith('optimize') and any(op != 'LQ_Bconv2dOp' for op, s in r.built):
            k.rule(oid + ':shape', not shape, 'multiplier and bias keep one value per channel', p.loc, 'a fused constant of another shape makes the %s a tensor of that shape' % shape if shape else '%d samples' % n)
    if p.ops[0][1] == 'TF_Conv2DOp' and any(op == 'LQ_Bconv2dOp' for op, _ in r.built):
        fit = [F for F in r.facts if F[0] == 'filtershape' and isinstance(r.value(F[2]), tdc.T) and r.value(F[2]).id == r.value(r.defs[()][1][1]).id]
        k.rule(oid + ':groups', bool(fit), 'the filter has channels and groups a binary convolution can have', p.loc, '' if fit else 'no condition on the shape of the filter')
    if any(SINGLE.match(op) for _, op, _ in p.ops[1:]):
        k.rule(oid + ':use', use is None, 'the intermediate result that is computed differently afterwards has no other use', p.loc, 'no condition that the matched %s has a single use' % use if use else '')


def check(k):
    helpers(k)
    for td, f, oid, p in walk(k):
        equation(k, td, oid, p, 'the constructed expression has the value of the matched one whenever the conditions hold')
        if 'Sign(AddV2' in oid:
            equation(k, td, oid + ':any-offset', p, 'the rewrite holds for every offset the pattern matches', wide=True)
        legality(k, td, f, oid, p)
